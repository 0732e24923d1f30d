"""Textual LLVM IR (clang 18, -O0, opaque pointers) -> small in-memory program.

Only the front half of the analyser: types and layouts, globals, functions with
lazily parsed bodies, debug locations.  Nothing here executes anything.
"""
import re
import subprocess

TOK = re.compile(r'''
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<loc>%"(?:[^"\\]|\\.)*"|%[-\w.$]+)
 | (?P<glb>@"(?:[^"\\]|\\.)*"|@[-\w.$]+)
 | (?P<md>![-\w.]*)
 | (?P<attr>\#\d+)
 | (?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?|0x[0-9A-Fa-f]+)
 | (?P<dots>\.\.\.)
 | (?P<word>[A-Za-z_][\w.]*)
 | (?P<p><\{|\}>|[()\[\]{}<>,=*:|])
''', re.X)


class IRError(Exception):
    pass


def tokenize(s):
    return [(m.lastgroup, m.group()) for m in TOK.finditer(s)]


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'a', '_sz')

    def __init__(self, k, a=None):
        self.k, self.a, self._sz = k, a, None

    def __repr__(self):
        return f'{self.k}{self.a if self.a is not None else ""}'


PTR, VOID = Ty('ptr'), Ty('void')
INT = {}


def int_ty(w):
    if w not in INT:
        INT[w] = Ty('int', w)
    return INT[w]


class Module:
    def __init__(self, path, text):
        self.path = path
        self.types = {}      # name -> Ty or raw string
        self.globals = {}    # name -> dict(const, thread_local, init tokens)
        self.aliases = {}
        self.funcs = {}
        self.md_file = {}    # metadata id -> ('loc', line, scope) etc
        self.source = None
        self._parse(text)

    def _parse(self, text):
        lines = text.split('\n')
        i, n = 0, len(lines)
        self.mdlines = {}
        while i < n:
            l = lines[i]
            if l.startswith('define '):
                j = i + 1
                while not lines[j].startswith('}'):
                    j += 1
                f = Func(self, l, lines[i + 1:j])
                self.funcs[f.name] = f
                i = j
            elif l.startswith('declare '):
                pass
            elif l.startswith('%'):
                m = re.match(r'(%"(?:[^"\\]|\\.)*"|%[-\w.$]+) = type (.*)$', l)
                if m:
                    self.types[m.group(1)] = m.group(2)
            elif l.startswith('@'):
                m = re.match(r'(@"(?:[^"\\]|\\.)*"|@[-\w.$]+) = (.*)$', l)
                name, rest = unq(m.group(1)), m.group(2)
                am = re.search(r'\balias\b.*?(@"(?:[^"\\]|\\.)*"|@[-\w.$]+)\s*$', rest)
                if am and re.search(r'\balias\b', rest.split('@')[0]):
                    self.aliases[name] = unq(am.group(1))
                else:
                    km = re.search(r'\b(global|constant)\b', rest)
                    self.globals[name] = dict(
                        const=bool(km and km.group(1) == 'constant'),
                        tls='thread_local' in rest.split('global')[0],
                        external=bool(re.match(r'(external|extern_weak)\b', rest)),
                        raw=rest[km.end():].strip() if km else rest, module=self)
            elif l.startswith('!'):
                m = re.match(r'!(\d+) = (.*)$', l)
                if m:
                    self.mdlines[m.group(1)] = m.group(2)
            elif l.startswith('source_filename'):
                self.source = l.split('"')[1]
            i += 1

    def loc(self, mdid):
        """(file, line) of a !DILocation, following inlinedAt to the outermost."""
        raw = self.mdlines.get(mdid, '')
        m = re.search(r'line: (\d+)', raw)
        line = int(m.group(1)) if m else 0
        seen = 0
        scope = re.search(r'scope: !(\d+)', raw)
        file = None
        while scope and seen < 20:
            sraw = self.mdlines.get(scope.group(1), '')
            fm = re.search(r'file: !(\d+)', sraw)
            if fm:
                fr = self.mdlines.get(fm.group(1), '')
                nm = re.search(r'filename: "([^"]*)"', fr)
                if nm:
                    file = nm.group(1)
                break
            scope = re.search(r'scope: !(\d+)', sraw)
            seen += 1
        return (file, line)

    # -- type handling
    def named(self, name):
        t = self.types.get(name)
        if t is None:
            return Ty('opaque', name)
        if isinstance(t, str):
            toks = tokenize(t)
            if t.startswith('opaque'):
                ty = Ty('opaque', name)
            else:
                ty, _ = self.parse_type(toks, 0)
                ty = Ty('struct', (name, ty.a[1], ty.a[2])) if ty.k == 'struct' else ty
            self.types[name] = ty
            return ty
        return t

    def parse_type(self, toks, p):
        k, v = toks[p]
        if k == 'word':
            if v == 'ptr':
                # optional addrspace ignored
                return PTR, p + 1
            if v == 'void':
                return VOID, p + 1
            m = re.match(r'i(\d+)$', v)
            if m:
                return int_ty(int(m.group(1))), p + 1
            if v in ('double', 'float', 'half', 'x86_fp80', 'fp128'):
                return Ty('fp', v), p + 1
            if v in ('metadata', 'token', 'label'):
                return Ty(v), p + 1
            raise IRError(f'type {v}')
        if k == 'loc':
            return self.named(v), p + 1
        if v in ('{', '<{'):
            packed = v == '<{'
            end = '}>' if packed else '}'
            p += 1
            elems = []
            while toks[p][1] != end:
                t, p = self.parse_type(toks, p)
                elems.append(t)
                if toks[p][1] == ',':
                    p += 1
            return Ty('struct', (None, elems, packed)), p + 1
        if v == '[':
            n = int(toks[p + 1][1])
            t, p = self.parse_type(toks, p + 3)
            return Ty('array', (n, t)), p + 1
        if v == '<':
            n = int(toks[p + 1][1])
            t, p = self.parse_type(toks, p + 3)
            return Ty('vector', (n, t)), p + 1
        raise IRError(f'type token {toks[p]}')


def unq(s):
    s = s[1:]
    if s.startswith('"'):
        s = s[1:-1]
    return s


def align_of(t):
    if t.k == 'int':
        return 1 if t.a <= 8 else 2 if t.a <= 16 else 4 if t.a <= 32 else 8 if t.a <= 64 else 16
    if t.k == 'ptr':
        return 8
    if t.k == 'fp':
        return {'double': 8, 'float': 4, 'half': 2}.get(t.a, 16)
    if t.k == 'struct':
        if t.a[2]:
            return 1
        return max([align_of(x) for x in t.a[1]] or [1])
    if t.k in ('array', 'vector'):
        return align_of(t.a[1])
    return 8


def size_of(t):
    if t._sz is not None:
        return t._sz
    if t.k == 'int':
        s = (t.a + 7) // 8
        s = 1 if s <= 1 else 2 if s <= 2 else 4 if s <= 4 else 8 if s <= 8 else 16
    elif t.k == 'ptr':
        s = 8
    elif t.k == 'fp':
        s = {'double': 8, 'float': 4, 'half': 2}.get(t.a, 16)
    elif t.k == 'struct':
        off = 0
        for x in t.a[1]:
            a = 1 if t.a[2] else align_of(x)
            off = (off + a - 1) // a * a + size_of(x)
        a = align_of(t)
        s = (off + a - 1) // a * a
    elif t.k in ('array', 'vector'):
        s = t.a[0] * size_of(t.a[1])
    else:
        s = 0
    t._sz = s
    return s


def field_off(t, i):
    off = 0
    for j, x in enumerate(t.a[1]):
        a = 1 if t.a[2] else align_of(x)
        off = (off + a - 1) // a * a
        if j == i:
            return off, x
        off += size_of(x)
    raise IRError('field index')


# ---------------------------------------------------------------- functions
class Ins:
    __slots__ = ('op', 'res', 'a', 'dbg', 'idx')

    def __init__(self, op, res, a, dbg):
        self.op, self.res, self.a, self.dbg = op, res, a, dbg


class Block:
    __slots__ = ('name', 'ins', 'succ')

    def __init__(self, name):
        self.name, self.ins, self.succ = name, [], []


PARAM_ATTR_PAREN = {'sret', 'byval', 'dereferenceable', 'dereferenceable_or_null', 'align',
                    'elementtype', 'inalloca', 'preallocated', 'byref', 'memory', 'range',
                    'captures', 'initializes', 'nofpclass', 'allocsize'}


class Func:
    def __init__(self, mod, header, body):
        self.mod = mod
        self.header = header
        m = re.search(r'@("(?:[^"\\]|\\.)*"|[-\w.$]+)\(', header)
        self.name = m.group(1).strip('"')
        self.linkage = header.split()[1]
        self._body = body
        self._parsed = False
        self.params = []      # (name, type, attrs set)
        self.dem = None
        self._hdr = (m.end(),)

    def parse(self):
        if self._parsed:
            return self
        self._parsed = True
        mod = self.mod
        # return type: tokens before @name
        pre = tokenize(self.header[:self._hdr[0] - len(self.name) - 2])
        # params
        toks = tokenize(self.header[self._hdr[0]:])
        p = 0
        while toks[p][1] != ')':
            if toks[p][0] == 'dots':
                p += 1
                continue
            t, p = mod.parse_type(toks, p)
            attrs = set()
            while toks[p][0] == 'word':
                w = toks[p][1]
                attrs.add(w)
                p += 1
                if toks[p][1] == '(':
                    d = 0
                    while True:
                        if toks[p][1] == '(':
                            d += 1
                        elif toks[p][1] == ')':
                            d -= 1
                            if d == 0:
                                p += 1
                                break
                        p += 1
                elif w == 'align' and toks[p][0] == 'num':
                    p += 1
            name = toks[p][1]
            p += 1
            self.params.append((name, t, attrs))
            if toks[p][1] == ',':
                p += 1
        self.dbg_sub = None
        m = re.search(r'!dbg !(\d+)', self.header)
        self.defloc = None
        if m:
            raw = mod.mdlines.get(m.group(1), '')
            lm = re.search(r'line: (\d+)', raw)
            fm = re.search(r'file: !(\d+)', raw)
            if lm and fm:
                nm = re.search(r'filename: "([^"]*)"', mod.mdlines.get(fm.group(1), ''))
                self.defloc = (nm.group(1) if nm else None, int(lm.group(1)))
        # blocks
        self.blocks = {}
        self.order = []
        cur = None
        lines = self._body
        i = 0
        buf = []
        # join continuation lines
        joined = []
        while i < len(lines):
            l = lines[i]
            if not l.strip():
                i += 1
                continue
            if not l.startswith(' '):
                joined.append(l)
                i += 1
                continue
            s = l
            if re.match(r'\s+switch ', l) and ']' not in l:
                while ']' not in lines[i]:
                    i += 1
                    s += ' ' + lines[i].strip()
            elif re.match(r'\s+(%[^=]+ = )?(tail |notail |musttail )?invoke ', l):
                while 'unwind label' not in s:
                    i += 1
                    s += ' ' + lines[i].strip()
            elif re.match(r'\s+(%[^=]+ = )?landingpad', l):
                while i + 1 < len(lines) and re.match(r'\s{8,}(cleanup|catch|filter)', lines[i + 1]):
                    i += 1
                    s += ' ' + lines[i].strip()
            joined.append(s)
            i += 1
        for l in joined:
            if not l.startswith(' '):
                m = re.match(r'("(?:[^"\\]|\\.)*"|[-\w.$]+):', l)
                cur = Block(m.group(1).strip('"'))
                self.blocks[cur.name] = cur
                self.order.append(cur.name)
                continue
            if cur is None:
                cur = Block('0')
                self.blocks[cur.name] = cur
                self.order.append(cur.name)
            ins = self.parse_ins(l.strip())
            if ins is None:
                continue
            cur.ins.append(ins)
            if ins.op == 'br':
                cur.succ = ins.a['to']
            elif ins.op == 'switch':
                cur.succ = [ins.a['default']] + [b for _, b in ins.a['cases']]
            elif ins.op == 'call' and ins.a.get('normal'):
                cur.succ = [ins.a['normal']]     # exceptional edge not followed
        self.entry = self.order[0]
        self._loops()
        return self

    # ---- operands
    def operand(self, toks, p, ty):
        mod = self.mod
        k, v = toks[p]
        if k == 'loc':
            return ('reg', v), p + 1
        if k == 'glb':
            return ('glb', unq(v)), p + 1
        if k == 'num':
            if ty.k == 'fp' or '.' in v or v.startswith('0x'):
                return ('fp', v), p + 1
            return ('int', int(v)), p + 1
        if k == 'word':
            if v == 'true':
                return ('bool', True), p + 1
            if v == 'false':
                return ('bool', False), p + 1
            if v == 'null':
                return ('null',), p + 1
            if v in ('undef', 'poison'):
                return ('undef',), p + 1
            if v == 'zeroinitializer':
                return ('zero',), p + 1
            if v in ('getelementptr', 'inttoptr', 'ptrtoint', 'bitcast', 'addrspacecast', 'sub', 'add', 'trunc', 'select', 'icmp'):
                # constant expression
                q = p + 1
                while toks[q][1] != '(':
                    q += 1
                d = 0
                e = q
                while True:
                    if toks[e][1] == '(':
                        d += 1
                    elif toks[e][1] == ')':
                        d -= 1
                        if d == 0:
                            break
                    e += 1
                inner = toks[q + 1:e]
                if v == 'getelementptr':
                    return self._gep_const(inner), e + 1
                if v in ('inttoptr', 'ptrtoint', 'bitcast', 'addrspacecast'):
                    t, r = mod.parse_type(inner, 0)
                    o, r = self.operand(inner, r, t)
                    return o, e + 1
                return ('cexpr', v), e + 1
        if v in ('{', '[', '<', '<{'):
            # aggregate constant
            close = {'{': '}', '[': ']', '<': '>', '<{': '}>'}[v]
            q = p + 1
            elems = []
            while toks[q][1] != close:
                t, q = mod.parse_type(toks, q)
                o, q = self.operand(toks, q, t)
                elems.append((t, o))
                if toks[q][1] == ',':
                    q += 1
            return ('agg', elems), q + 1
        raise IRError(f'operand {toks[p:p+4]}')

    def _gep_const(self, toks):
        mod = self.mod
        p = 0
        ty, p = mod.parse_type(toks, p)
        p += 1
        t, p = mod.parse_type(toks, p)
        base, p = self.operand(toks, p, t)
        idx = []
        while p < len(toks) and toks[p][1] == ',':
            p += 1
            while toks[p][1] in ('inrange',):
                p += 1
            t, p = mod.parse_type(toks, p)
            o, p = self.operand(toks, p, t)
            idx.append(o)
        return ('cgep', ty, base, idx)

    def tyval(self, toks, p):
        t, p = self.mod.parse_type(toks, p)
        p = skip_attrs(toks, p)
        o, p = self.operand(toks, p, t)
        return t, o, p

    def parse_ins(self, s):
        dbg = None
        m = re.search(r', !dbg !(\d+)', s)
        if m:
            dbg = m.group(1)
        s2 = re.sub(r', ![\w.]+ !\d+', '', s)
        s2 = re.sub(r',? #\d+(?=$|,| |\s)', lambda m: '', s2)
        toks = tokenize(s2)
        p = 0
        res = None
        if len(toks) > 1 and toks[1][1] == '=' and toks[0][0] == 'loc':
            res = toks[0][1]
            p = 2
        op = toks[p][1]
        mod = self.mod
        if op in ('tail', 'notail', 'musttail'):
            p += 1
            op = toks[p][1]
        p += 1
        if op == 'alloca':
            if toks[p][1] == 'inalloca':
                p += 1
            t, p = mod.parse_type(toks, p)
            cnt = 1
            if p < len(toks) and toks[p][1] == ',' and toks[p + 1][1] != 'align':
                _, o, p = self.tyval(toks, p + 1)
                cnt = o
            return Ins('alloca', res, dict(ty=t, n=cnt), dbg)
        if op == 'load':
            while toks[p][1] in ('volatile', 'atomic'):
                p += 1
            t, p = mod.parse_type(toks, p)
            _, o, p = self.tyval(toks, p + 1)
            return Ins('load', res, dict(ty=t, ptr=o), dbg)
        if op == 'store':
            while toks[p][1] in ('volatile', 'atomic'):
                p += 1
            t, v, p = self.tyval(toks, p)
            _, o, p = self.tyval(toks, p + 1)
            return Ins('store', None, dict(ty=t, val=v, ptr=o), dbg)
        if op == 'getelementptr':
            while toks[p][1] in ('inbounds', 'nuw', 'nusw'):
                p += 1
            ty, p = mod.parse_type(toks, p)
            _, base, p = self.tyval(toks, p + 1)
            idx = []
            while p < len(toks) and toks[p][1] == ',':
                t, o, p = self.tyval(toks, p + 1)
                idx.append((t, o))
            return Ins('gep', res, dict(ty=ty, base=base, idx=idx), dbg)
        if op in ('call', 'invoke'):
            return self.parse_call(res, toks, p, op, dbg)
        if op == 'br':
            if toks[p][1] == 'label':
                return Ins('br', None, dict(cond=None, to=[toks[p + 1][1][1:].strip('"')]), dbg)
            t, c, p = self.tyval(toks, p)
            to = [toks[p + 2][1][1:].strip('"'), toks[p + 5][1][1:].strip('"')]
            return Ins('br', None, dict(cond=c, to=to), dbg)
        if op == 'switch':
            t, v, p = self.tyval(toks, p)
            default = toks[p + 2][1][1:].strip('"')
            p += 3
            assert toks[p][1] == '['
            p += 1
            cases = []
            while toks[p][1] != ']':
                _, c, p = self.tyval(toks, p)
                cases.append((c, toks[p + 2][1][1:].strip('"')))
                p += 3
            return Ins('switch', None, dict(ty=t, val=v, default=default, cases=cases), dbg)
        if op == 'ret':
            if toks[p][1] == 'void':
                return Ins('ret', None, dict(val=None), dbg)
            t, o, p = self.tyval(toks, p)
            return Ins('ret', None, dict(val=o, ty=t), dbg)
        if op == 'phi':
            t, p = mod.parse_type(toks, p)
            inc = []
            while p < len(toks) and toks[p][1] in ('[', ','):
                if toks[p][1] == ',':
                    p += 1
                    if toks[p][1] != '[':
                        break
                o, p = self.operand(toks, p + 1, t)
                inc.append((o, toks[p + 1][1][1:].strip('"')))
                p += 3
            return Ins('phi', res, dict(ty=t, inc=inc), dbg)
        if op == 'select':
            while toks[p][1] in ('fast', 'nnan', 'nsz'):
                p += 1
            _, c, p = self.tyval(toks, p)
            t, a, p = self.tyval(toks, p + 1)
            _, b, p = self.tyval(toks, p + 1)
            return Ins('select', res, dict(cond=c, a=a, b=b, ty=t), dbg)
        if op in ('icmp', 'fcmp'):
            while toks[p][1] in ('fast', 'samesign'):
                p += 1
            pred = toks[p][1]
            t, a, p = self.tyval(toks, p + 1)
            b, p = self.operand(toks, p + 1, t)
            return Ins(op, res, dict(pred=pred, ty=t, a=a, b=b), dbg)
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr',
                  'and', 'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv'):
            fl = set()
            while toks[p][1] in ('nuw', 'nsw', 'exact', 'disjoint', 'fast', 'contract'):
                fl.add(toks[p][1])
                p += 1
            t, a, p = self.tyval(toks, p)
            b, p = self.operand(toks, p + 1, t)
            return Ins('bin', res, dict(op=op, ty=t, a=a, b=b, fl=fl), dbg)
        if op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'fptosi', 'fptoui',
                  'sitofp', 'uitofp', 'fpext', 'fptrunc', 'addrspacecast'):
            while toks[p][1] in ('nneg', 'nuw', 'nsw'):
                p += 1
            t, a, p = self.tyval(toks, p)
            t2, p = mod.parse_type(toks, p + 1)
            return Ins('cast', res, dict(op=op, ty=t, val=a, to=t2), dbg)
        if op == 'extractvalue':
            t, a, p = self.tyval(toks, p)
            idx = [int(x[1]) for x in toks[p:] if x[0] == 'num']
            return Ins('extractvalue', res, dict(val=a, idx=idx), dbg)
        if op == 'insertvalue':
            t, a, p = self.tyval(toks, p)
            t2, b, p = self.tyval(toks, p + 1)
            idx = [int(x[1]) for x in toks[p:] if x[0] == 'num']
            return Ins('insertvalue', res, dict(ty=t, val=a, el=b, idx=idx), dbg)
        if op in ('unreachable', 'resume'):
            return Ins('unreachable', None, {}, dbg)
        if op == 'landingpad':
            return Ins('unreachable', res, {}, dbg)
        if op == 'freeze':
            t, a, p = self.tyval(toks, p)
            return Ins('cast', res, dict(op='bitcast', ty=t, val=a, to=t), dbg)
        return Ins('unknown', res, dict(op=op, text=s), dbg)

    def parse_call(self, res, toks, p, op, dbg):
        mod = self.mod
        # skip cc, ret attrs
        while toks[p][0] == 'word' and not re.match(r'(i\d+|ptr|void|double|float|metadata)$', toks[p][1]):
            w = toks[p][1]
            p += 1
            if toks[p][1] == '(':
                p = skip_paren(toks, p)
            elif w == 'align' and toks[p][0] == 'num':
                p += 1
        rt, p = mod.parse_type(toks, p)
        p = skip_attrs(toks, p)
        if toks[p][1] == '(':      # explicit fn type
            p = skip_paren(toks, p)
        k, v = toks[p]
        if k == 'glb':
            callee = ('glb', unq(v))
        elif k == 'loc':
            callee = ('reg', v)
        else:
            callee = ('asm', v)
            while toks[p][1] != '(' or toks[p - 1][0] not in ('str',):
                p += 1
                if p >= len(toks):
                    return Ins('unknown', res, dict(op='asm', text=''), dbg)
            p -= 1
        p += 1
        assert toks[p][1] == '(', toks[p:p + 4]
        p += 1
        args = []
        while toks[p][1] != ')':
            t, p = mod.parse_type(toks, p)
            if t.k == 'metadata':
                d = 0
                while not (d == 0 and toks[p][1] in (',', ')')):
                    if toks[p][1] == '(':
                        d += 1
                    if toks[p][1] == ')':
                        d -= 1
                    p += 1
                args.append((t, ('undef',), set()))
            else:
                q = p
                p = skip_attrs(toks, p)
                attrs = {x[1] for x in toks[q:p] if x[0] == 'word'}
                o, p = self.operand(toks, p, t)
                args.append((t, o, attrs))
            if toks[p][1] == ',':
                p += 1
        p += 1
        normal = None
        if op == 'invoke':
            for j in range(p, len(toks)):
                if toks[j][1] == 'to' and toks[j + 1][1] == 'label':
                    normal = toks[j + 2][1][1:].strip('"')
                    break
        return Ins('call', res, dict(callee=callee, args=args, rt=rt, normal=normal), dbg)

    # ---- natural loops (header -> set of blocks)
    def _loops(self):
        blocks = self.blocks
        order = []
        seen = set()

        def dfs(b):
            stack = [(b, iter(blocks[b].succ))]
            seen.add(b)
            while stack:
                x, it = stack[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        stack.append((s, iter(blocks[s].succ)))
                        break
                else:
                    order.append(x)
                    stack.pop()
        dfs(self.entry)
        rpo = order[::-1]
        num = {b: i for i, b in enumerate(rpo)}
        preds = {b: [] for b in rpo}
        for b in rpo:
            for s in blocks[b].succ:
                preds[s].append(b)
        idom = {self.entry: self.entry}
        changed = True
        while changed:
            changed = False
            for b in rpo[1:]:
                new = None
                for q in preds[b]:
                    if q in idom:
                        if new is None:
                            new = q
                        else:
                            x, y = q, new
                            while x != y:
                                while num[x] > num[y]:
                                    x = idom[x]
                                while num[y] > num[x]:
                                    y = idom[y]
                            new = x
                if idom.get(b) != new:
                    idom[b] = new
                    changed = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == self.entry:
                    return False
                b = idom[b]
        self.loops = {}
        self.irreducible = False
        for b in rpo:
            for s in blocks[b].succ:
                if num[s] <= num[b]:
                    if not dom(s, b):
                        self.irreducible = True
                        continue
                    body = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(preds[x])
        self.reach = seen
        self.preds = preds


def skip_paren(toks, p):
    d = 0
    while True:
        if toks[p][1] == '(':
            d += 1
        elif toks[p][1] == ')':
            d -= 1
            if d == 0:
                return p + 1
        p += 1


CONST_WORDS = {'true', 'false', 'null', 'undef', 'poison', 'zeroinitializer', 'getelementptr',
               'inttoptr', 'ptrtoint', 'bitcast', 'sub', 'add', 'trunc', 'select', 'icmp',
               'addrspacecast'}


def skip_attrs(toks, p):
    while p < len(toks) and toks[p][0] == 'word' and toks[p][1] not in CONST_WORDS:
        w = toks[p][1]
        p += 1
        if p < len(toks) and toks[p][1] == '(' and w in PARAM_ATTR_PAREN:
            p = skip_paren(toks, p)
        elif w == 'align' and toks[p][0] == 'num':
            p += 1
    return p


def demangle(names):
    names = list(names)
    exe = '/usr/lib/llvm-18/bin/llvm-cxxfilt'
    import os
    if not os.path.exists(exe):
        exe = 'c++filt'
    out = subprocess.run([exe], input='\n'.join(names) + '\n', capture_output=True, text=True).stdout.split('\n')
    return dict(zip(names, out))
