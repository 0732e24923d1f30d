"""Abstract values for the C++ standard library (and protobuf accessors): strings,
sequences, associative containers, iterators, streams, locks, allocation.
Each model is a transfer function over engine.State; nothing is executed."""
import re
import guards
from engine import (Ptr, B, Op, Fn, Agg, NULL, UNDEF, TRUE, FALSE, T_, F_, Unsupported, Dead, Lin, K, add_off, as_lin,
                    simp, neg, State)
from irparse import PTR, int_ty, size_of

I8, I32, I64 = int_ty(8), int_ty(32), int_ty(64)
NPOS = (1 << 64) - 1

_OPS = [('operator<=>', 'operator@ssh'), ('operator<<', 'operator@shl'), ('operator>>', 'operator@shr'),
        ('operator->', 'operator@arrow'), ('operator<=', 'operator@le'), ('operator>=', 'operator@ge'),
        ('operator<', 'operator@lt'), ('operator>', 'operator@gt'), ('operator()', 'operator@call')]
_cache = {}


def skel(dem):
    """(path, template args of the class, parameter text) of a demangled name"""
    r = _cache.get(dem)
    if r is not None:
        return r
    s = dem
    for a, b in _OPS:
        s = s.replace(a, b)
    out, d, targs, cur = [], 0, [], None
    pd = 0
    i = 0
    params = ''
    while i < len(s):
        c = s[i]
        if c == '<':
            if d == 0 and pd == 0:
                cur = i + 1
            d += 1
        elif c == '>':
            d -= 1
            if d == 0 and pd == 0 and cur is not None:
                targs.append((len(out), s[cur:i]))
                cur = None
        elif d == 0 and c == '(':
            if pd == 0:
                pstart = i + 1
                out.append('(')
            pd += 1
        elif d == 0 and c == ')':
            pd -= 1
            if pd == 0:
                out.append(')')
                last = s[pstart:i]
                txt = ''.join(out)
                m = re.search(r"([\w:~\[\]@&'$+=*!-]+(?: bool)?)\(\)$", txt)
                if m and m.group(1) != 'decltype' and not m.group(1).endswith('::decltype') and m.group(1) != 'new' and not m.group(1).endswith('::new'):
                    rest = s[i + 1:]
                    if not re.match(r"::", rest):
                        params = last
                        path = m.group(1)
                        r = (path, [t for p, t in targs if p > m.start()] or [], params)
                        _cache[dem] = r
                        return r
        elif d == 0 and pd == 0:
            out.append(c)
        i += 1
    r = (''.join(out), [t for _, t in targs], params)
    _cache[dem] = r
    return r


def split_targs(s):
    out, d, cur = [], 0, ''
    for c in s:
        if c in '<([':
            d += 1
        elif c in '>)]':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


class Str:
    """string value: concatenation of parts
    ('sub', base, off, len)  a piece of a symbolic string
    ('chr', value)           one character"""
    __slots__ = ('parts', '_h')

    def __init__(self, parts):
        self.parts = tuple(parts)
        self._h = None

    def __eq__(self, o):
        return isinstance(o, Str) and self.parts == o.parts

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.parts)
        return self._h

    def __repr__(self):
        if not self.parts:
            return '""'
        return '+'.join(f'{oname2(p[1])}[{p[2]}:+{p[3]}]' if p[0] == 'sub' else f"'{p[1]}'" for p in self.parts)


def oname2(o):
    from engine import oname
    return oname(o)


class Seq:
    __slots__ = ('base', 'blen', 'lo', 'hi', 'items', 'et')

    def __init__(self, base, blen, lo=0, hi=0, items=(), et=''):
        self.base, self.blen, self.lo, self.hi, self.items, self.et = base, blen, lo, hi, tuple(items), et

    def key(self):
        return (self.base, self.blen, self.lo, self.hi, self.items)

    def __eq__(self, o):
        return isinstance(o, Seq) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def rem(self):
        return self.blen - self.lo - self.hi

    def size(self):
        return self.rem() + len(self.items)

    def with_(self, **k):
        d = dict(base=self.base, blen=self.blen, lo=self.lo, hi=self.hi, items=self.items, et=self.et)
        d.update(k)
        return Seq(**d)

    def __repr__(self):
        return f'seq({self.base}:{self.blen},{self.lo},{self.hi},{self.items})'


class Bits:
    """vector<bool>: size and per-index facts (atoms ('bit', id, idx))"""
    __slots__ = ('id', 'n', 'writes')

    def __init__(self, id, n, writes=()):
        self.id, self.n, self.writes = id, n, tuple(writes)

    def __eq__(self, o):
        return isinstance(o, Bits) and (self.id, self.n, self.writes) == (o.id, o.n, o.writes)

    def __hash__(self):
        return hash((self.id, self.n, self.writes))

    def __repr__(self):
        return f'bits({self.id},{self.n},{len(self.writes)})'


class Coll:
    """associative container: unknown base contents plus known insertions/erasures"""
    __slots__ = ('base', 'blen', 'ins', 'dels', 'kt', 'vt', 'sorted')

    def __init__(self, base, blen, ins=(), dels=(), kt='', vt=None, sorted=True):
        self.base, self.blen, self.ins, self.dels, self.kt, self.vt = base, blen, tuple(ins), tuple(dels), kt, vt
        self.sorted = sorted

    def key(self):
        return (self.base, self.blen, self.ins, self.dels)

    def __eq__(self, o):
        return isinstance(o, Coll) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def size(self):
        return self.blen + len(self.ins) - len(self.dels)

    def with_(self, **k):
        d = dict(base=self.base, blen=self.blen, ins=self.ins, dels=self.dels, kt=self.kt, vt=self.vt, sorted=self.sorted)
        d.update(k)
        return Coll(**d)

    def __repr__(self):
        return f'coll({self.base}:{self.blen}+{self.ins}-{self.dels})'


SEQS = {'std::vector', 'std::deque', 'std::queue', 'std::stack', 'std::__cxx11::list', 'std::array_', 'std::__cxx11::forward_list'}
ASSOC = {'std::set', 'std::map', 'std::unordered_set', 'std::unordered_map', 'std::multiset', 'std::multimap'}
ITS = ('__gnu_cxx::__normal_iterator', 'std::_Rb_tree_const_iterator', 'std::_Rb_tree_iterator', 'std::_List_iterator',
       'std::_List_const_iterator', 'std::_Deque_iterator', 'std::__detail::_Node_iterator', 'std::__detail::_Node_const_iterator',
       'std::reverse_iterator')
STRC = 'std::__cxx11::basic_string'


class Models:
    def __init__(self, eng):
        self.e = eng
        self.pbparse = None     # fills in a parsed message
        self.nodeq = None       # structural equality of dictionary nodes used as keys

    # ------------------------------------------------------------ type sizes
    def sizeof(self, t):
        t = t.strip()
        if t.startswith('const '):
            t = t[6:]
        if t.endswith(' const'):
            t = t[:-6]
        if t.endswith('*') or t.endswith('&'):
            return 8
        b = {'char': 1, 'bool': 1, 'unsigned char': 1, 'signed char': 1, 'short': 2, 'int': 4, 'unsigned int': 4, 'float': 4,
             'long': 8, 'unsigned long': 8, 'double': 8, 'size_t': 8}.get(t)
        if b:
            return b
        if t.startswith('std::__cxx11::basic_string'):
            return 32
        if t.startswith('std::pair<'):
            a, c = split_targs(t[10:-1])[:2]
            sa, sc = self.sizeof(a), self.sizeof(c)
            ac = min(8, sc if sc in (1, 2, 4) else 8)
            off = (sa + ac - 1) // ac * ac
            al = max(ac, min(8, sa if sa in (1, 2, 4) else 8))
            return (off + sc + al - 1) // al * al
        for k, v in (('std::map', 48), ('std::set', 48), ('std::vector', 24), ('std::unordered', 56), ('std::deque', 80)):
            if t.startswith(k):
                return v
        for pre in ('class.', 'struct.'):
            for m in self.e.prog.mods:
                for nm in (f'%"{pre}{t}"', f'%{pre}{t}'):
                    if nm in m.types:
                        try:
                            return size_of(m.named(nm))
                        except Exception:
                            pass
        return 64

    def second_off(self, kt, vt):
        sa, sc = self.sizeof(kt), self.sizeof(vt)
        ac = min(8, sc if sc in (1, 2, 4) else 8)
        return (sa + ac - 1) // ac * ac

    def ty_of(self, t):
        t = t.strip().replace(' const', '').replace('const ', '')
        if t.endswith('*') or t.endswith('&'):
            return PTR
        return {1: I8, 2: int_ty(16), 4: I32, 8: I64}.get(self.sizeof(t))

    # ------------------------------------------------------------ cells
    def cell(self, st, p, ins=None):
        if isinstance(p, Op):
            if p is UNDEF:
                raise Dead('use of an uninitialised object')
            raise Unsupported(f'container through {p}')
        p = self.e.access(st, p, ins, 'container')
        return (p.obj, p.off)

    def get(self, st, p, mk, ins=None):
        k = self.cell(st, p, ins)
        v = st.models.get(k)
        if v is None:
            for d0, so, s0, n in reversed(st.cps.get(k[0], [])):
                if isinstance(k[1], int) and d0 <= k[1] < d0 + n:
                    v = self.get(st, Ptr(so, s0 + k[1] - d0), mk)
                    break
        if v is None:
            v = mk(k)
            st.models[k] = v
            st.lazy[('M', k)] = v
        return v

    def put(self, st, p, v, ins=None, ev=True):
        k = self.cell(st, p, ins)
        if ev and st.meta(k[0])[0] != 'alloca':
            if st.meta(k[0])[0] == 'global' and self.e.prog.unshared(k[0][2:]):
                pass
            elif st.meta(k[0])[0] == 'global':
                st.ev.append(('gwrite', k[0][2:], self.e.where(st, ins)))
            else:
                st.ev.append(('write', k[0], k[1], v, self.e.where(st, ins)))
        st.models[k] = v

    # ------------------------------------------------------------ strings
    def is_str(self, v):
        return isinstance(v, Str)

    def symstr(self, st, base):
        n = Lin.var(('len', base))
        st.poly = st.poly.add('ge', n).add('ge', K((1 << 62)) - n)
        return Str([('sub', base, K(0), n)])

    def str_at(self, st, p, ins=None):
        def mk(k):
            if st.meta(k[0])[0] in ('alloca', 'heap'):
                raise Dead('use of an uninitialised string')
            return self.symstr(st, ('str', k[0], k[1]))
        return self.get(st, p, mk, ins)

    def slen(self, s):
        r = K(0)
        for p in s.parts:
            r = r + (p[3] if p[0] == 'sub' else K(1))
        return r

    def normstr(self, st, parts):
        out = []
        for p in parts:
            if p[0] == 'sub':
                if p[3].is_const() and p[3].c == 0 or st.poly.entails('eq', p[3]):
                    continue
                if out and out[-1][0] == 'sub' and out[-1][1] == p[1] and st.poly.entails('eq', out[-1][2] + out[-1][3] - p[2]):
                    q = out.pop()
                    p = ('sub', p[1], q[2], q[3] + p[3])
            out.append(p)
        return Str(out)

    def upto(self, st, n, have):
        """a fixed number of characters, more than the enumerated texts have: longer texts are cut"""
        fr = st.frames[-1] if st.frames else None
        if n.is_const() and guards.MIN <= n.c < (1 << 31) and have.is_const() and 1 <= have.c <= n.c and \
                fr is not None and guards.subject(fr.fn) and \
                st.decide(('atom', ('long history', fr.fn.name, fr.block, fr.idx))):
            return have - 1
        return n

    def substr(self, st, s, pos, n):
        """pos <= len must already hold; n Lin or None"""
        total = self.slen(s)
        end = total
        if n is not None and not (n.is_const() and n.c >= M62):
            if st.decide(('cmp', 'ge', total - pos - n)):
                end = pos + n
        out = []
        at = K(0)
        for p in s.parts:
            ln = p[3] if p[0] == 'sub' else K(1)
            a, b = at, at + ln
            at = b
            # overlap of [a,b) with [pos,end)
            if st.decide(('cmp', 'ge', pos - b)) or st.decide(('cmp', 'ge', a - end)):
                continue
            lo = pos if st.decide(('cmp', 'ge', pos - a)) else a
            hi = end if st.decide(('cmp', 'ge', b - end)) else b
            if p[0] == 'sub':
                out.append(('sub', p[1], p[2] + (lo - a), hi - lo))
            else:
                out.append(p)
        return self.normstr(st, out)

    def char_var(self, st, base, idx):
        if isinstance(base, tuple) and base[0] == 'lit' and idx.is_const():
            return K(base[1][idx.c]) if idx.c < len(base[1]) else K(0)
        for i, v in st.chars.get(base, []):
            if i == idx or st.poly.entails('eq', i - idx):
                return v
        v = Lin.var(('ch', base, idx))
        st.chars.setdefault(base, []).append((idx, v))
        st.poly = st.poly.add('ge', v + 128).add('ge', K(127) - v)
        return v

    def congruence(self, st, base):
        """equal positions hold equal characters"""
        l = st.chars.get(base, [])
        for a in range(len(l)):
            for b in range(a):
                if l[a][1] != l[b][1] and st.poly.entails('eq', l[a][0] - l[b][0]):
                    st.poly = st.poly.add('eq', l[a][1] - l[b][1])

    def char_at(self, st, s, idx, peek=False):
        at = K(0)
        for p in s.parts:
            ln = p[3] if p[0] == 'sub' else K(1)
            d = idx - at
            if peek:
                inside = st.poly.entails('ge', ln - d - 1)
                if not inside and not st.poly.entails('ge', d - ln):
                    return None
            else:
                inside = st.decide(('cmp', 'ge', ln - d - 1))
            if inside:
                if p[0] == 'chr':
                    return p[1]
                return self.char_var(st, p[1], p[2] + d)
            at = at + ln
        if peek:
            return None
        if st.decide(simp(('cmp', 'eq', idx - at))):
            return K(0)
        v = Lin.var(('oobch', st.fresh('c')))
        st.poly = st.poly.add('ge', v + 128).add('ge', K(127) - v)
        return v

    def char_store(self, st, obj, v):
        raise Unsupported('store through string reference')

    def strcmp(self, st, a, b):
        """three-way comparison value in {-1,0,1} as Lin"""
        if a == b:
            return K(0)
        if not a.parts or not b.parts:
            x = a if a.parts else b
            n = self.slen(x)
            if st.decide(simp(('cmp', 'eq', n))):
                return K(0)
            return K(1) if a.parts else K(-1)
        if all(p[0] == 'chr' for p in a.parts + b.parts):
            for x, y in zip(a.parts, b.parts):
                if not st.decide(simp(('cmp', 'eq', x[1] - y[1]))):
                    u, v = self.e.uns(st, x[1], 8), self.e.uns(st, y[1], 8)
                    return K(-1) if st.decide(simp(('cmp', 'ge', v - u - 1))) else K(1)
            d = len(a.parts) - len(b.parts)
            return K((d > 0) - (d < 0))
        if a.parts[0][0] == b.parts[0][0] == 'chr':
            x, y = a.parts[0][1], b.parts[0][1]
            if st.decide(simp(('cmp', 'eq', x - y))):
                return self.strcmp(st, Str(a.parts[1:]), Str(b.parts[1:]))
            return K(-1) if st.decide(simp(('cmp', 'ge', self.e.uns(st, y, 8) - self.e.uns(st, x, 8) - 1))) else K(1)
        flip = repr(a) > repr(b)
        if flip:
            a, b = b, a
        v = Lin.var(('strcmp', a, b))
        st.poly = st.poly.add('ge', v + 1).add('ge', K(1) - v)
        return -v if flip else v

    def cstr(self, st, p):
        """C string pointer -> Str"""
        if isinstance(p, Ptr):
            p = st.norm(p)
            if isinstance(p.obj, tuple) and p.obj[0] == 'cstr':
                return self.nulcut(st, p.obj[1])
            if isinstance(p.obj, str) and p.obj.startswith('G:'):
                g = self.e.prog.globals.get(p.obj[2:])
                m = re.search(r'c"((?:[^"\\]|\\.)*)"', g['raw']) if g else None
                if m:
                    bs = []
                    t = m.group(1)
                    i = 0
                    while i < len(t):
                        if t[i] == '\\':
                            bs.append(int(t[i + 1:i + 3], 16))
                            i += 3
                        else:
                            bs.append(ord(t[i]))
                            i += 1
                    if bs and bs[-1] == 0:
                        bs.pop()
                    return Str([('chr', K(c)) for c in bs])
                if g and 'zeroinitializer' in g['raw']:
                    return Str([])
            return self.symstr(st, ('cs', p.obj, p.off))
        return self.symstr(st, ('cs', st.fresh('s')))

    # ------------------------------------------------------------ havoc
    def havoc_value(self, eng, st, name, init):
        n = st.fresh('~' + name)
        if isinstance(init, Lin):
            v = Lin.var(n)
            st.poly = st.poly.add('ge', v + (1 << 63)).add('ge', K((1 << 64) - 1) - v)   # representation range
            return v, [('', v, init, lambda x: x)]
        if isinstance(init, Ptr):
            if isinstance(init.obj, tuple) and init.obj[0] == 'chr':
                raise Unsupported('loop over character references')
            if isinstance(init.off, int) and init.off == 0 or init.obj is None:
                st.objs[n] = ('sym', n, st.root(init.obj) if init.obj is not None else n)
                v = Ptr(n, 0)
                return v, [('', v, init, lambda x: x)]
            st.objs[n] = ('sym', n, st.root(init.obj))
            v = Ptr(n, 0)
            return v, [('', v, init, lambda x: x)]
        if isinstance(init, B):
            v = B(('atom', n))
            return v, [('', v, init, lambda x: x)]
        if isinstance(init, Str):
            b = ('hv', n)
            s = self.symstr(st, b)
            # a havocked string that was a suffix of a known base may stay one
            if len(init.parts) <= 1:
                p0 = init.parts[0] if init.parts else None
                if p0 and p0[0] == 'sub':
                    o, l = Lin.var(('off', n)), Lin.var(('ln', n))
                    st.poly = st.poly.add('ge', o).add('ge', l).add('ge', K(1 << 62) - l)
                    v = Str([('sub', p0[1], o, l)])

                    def part(x, i, b=p0[1]):
                        if isinstance(x, Str) and not x.parts:
                            raise ValueError
                        assert isinstance(x, Str) and len(x.parts) == 1 and x.parts[0][0] == 'sub' and x.parts[0][1] == b
                        return x.parts[0][i]
                    st.user.setdefault('strhv', {})
                    return v, [('off', o, p0[2], lambda x: part(x, 2)), ('len', l, p0[3], lambda x: part(x, 3))]
            return s, [('len', self.slen(s), self.slen(init), lambda x: self.slen(x))]
        if isinstance(init, Seq):
            l = Lin.var(('len', n))
            st.poly = st.poly.add('ge', l).add('ge', K(1 << 62) - l)
            return Seq(n, l, et=init.et), [('len', l, init.size(), lambda x: x.size())]
        if isinstance(init, Coll):
            l = Lin.var(('len', n))
            st.poly = st.poly.add('ge', l).add('ge', K(1 << 62) - l)
            return Coll(n, l, kt=init.kt, vt=init.vt), [('len', l, init.size(), lambda x: x.size())]
        if isinstance(init, Bits):
            return Bits(n, init.n), []
        if isinstance(init, Op) and init.k in ('it', 'rit', 'cit'):
            v = Lin.var(('idx', n))
            st.poly = st.poly.add('ge', v).add('ge', K(1 << 62) - v)
            return Op(init.k, *(init.a[:-1] + (v,))), [('idx', v, init.a[-1], lambda x: x.a[-1] if x.k == init.k and x.a[:-1] == init.a[:-1] else None)]
        if isinstance(init, Op) and init.k == 'stream':
            return Op('stream', Str([('sub', ('hv', n), K(0), Lin.var(('len', ('hv', n))))])), []
        return Op('havoc', n), []

    # ------------------------------------------------------------ dispatch
    def call(self, st, ins, name, dem, args):
        e = self.e
        if name.startswith('llvm.'):
            return self.intrinsic(st, ins, name, args)
        if name in ('_Znwm', '_Znam', '_ZnwmSt11align_val_t', 'malloc'):
            o = st.new_obj('heap', 'new')
            st.ev.append(('new', o, args[0], e.where(st, ins)))
            return Ptr(o, 0)
        if name in ('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', 'free'):
            return self.delete(st, ins, args[0])
        if name in ('_ZSt9terminatev', '__clang_call_terminate', 'abort', '__cxa_throw', '_ZSt25__throw_bad_function_callv') or \
                name.startswith('_ZSt') and '__throw_' in name:
            st.ev.append(('throw', dem, e.where(st, ins)))
            raise Dead('throws ' + dem)
        if name in ('__cxa_begin_catch', '__cxa_end_catch', '__cxa_guard_release', '__cxa_atexit'):
            return None if ins.a['rt'].k == 'void' else K(0)
        if name == '__cxa_guard_acquire':
            st.ev.append(('guard', str(args[0]), e.where(st, ins)))
            return K(1) if st.decide(('atom', ('guard', args[0]))) else K(0)
        path, targs, params = skel(dem)
        # ---- protobuf accessors
        if path.startswith('liblevenshtein::proto::') or path.startswith('google::protobuf'):
            return self.pb(st, ins, path, params, args)
        if not (path.startswith('std::') or path.startswith('__gnu_cxx::') or dem.startswith('std::') or name.startswith('_ZSt')):
            return NotImplemented
        if path.startswith(STRC + '::') or path.startswith('std::basic_string_view::'):
            return self.string(st, ins, path.rsplit('::', 1)[1], dem, params, args)
        cls, _, meth = path.rpartition('::')
        if cls == 'std::vector' and targs and targs[0].startswith('bool'):
            return self.bits(st, ins, meth, params, args)
        if path == 'std::_Bit_reference::operator bool':
            r = self.bitref(st, args[0])
            return B(self.bit_cond(st, r))
        if path == 'std::_Bit_reference::operator=':
            r = self.bitref(st, args[0])
            if '_Bit_reference const&' in params:
                v = B(self.bit_cond(st, self.bitref(st, args[1])))
            else:
                v = args[1]
            key = r.a[0]
            cur = st.models[key]
            st.models[key] = Bits(cur.id, cur.n, cur.writes + ((r.a[1], v),))
            st.ev.append(('bitwrite', key, r.a[1], v, e.where(st, ins)))
            return args[0]
        if path.startswith('std::_Bit_reference::'):
            return NotImplemented
        if path == 'std::swap' and '_Bit_reference' in params:
            raise Unsupported('swap of bits')
        if cls.startswith('std::_Bit_') or '_Bit_iterator_base const&' in params or 'std::_Bit_iterator const&' in params or \
                'std::_Bit_const_iterator const&' in params or path == 'std::find' and 'std::_Bit_' in params:
            return self.bit_iter(st, ins, path, params, args)
        if path == 'std::reverse' and 'basic_string' in params:
            a, b = self.itval(st, args[0]), self.itval(st, args[1])
            if a.k == b.k == 'it' and a.a[0] == b.a[0] and len(a.a[0]) > 2 and st.poly.entails('eq', a.a[1]) and \
                    st.poly.entails('eq', self.slen(a.a[0][1]) - b.a[1]) and all(p[0] == 'chr' for p in a.a[0][1].parts):
                self.put(st, Ptr(*a.a[0][2]), Str(a.a[0][1].parts[::-1]), ins)
                return None
            raise Unsupported('std::reverse')
        if cls in SEQS:
            return self.seq(st, ins, cls, meth, targs, params, args)
        if cls in ASSOC:
            return self.assoc(st, ins, cls, meth, targs, params, args)
        if cls in ITS:
            return self.iter(st, ins, cls, meth, params, args)
        if meth in ('operator==', 'operator!=') and re.search(r'iterator', params):
            a, b = self.itval(st, args[0]), self.itval(st, args[1])
            if isinstance(a, Op) and isinstance(b, Op) and a.k in ('it', 'cit', 'rit', 'cfind', 'cend', 'citel'):
                c = self.iteq(st, a, b)
                return B(c if meth == 'operator==' else neg(c))
            return NotImplemented
        if cls in ('std::shared_lock', 'std::unique_lock', 'std::lock_guard', 'std::scoped_lock', 'std::shared_mutex', 'std::mutex'):
            return self.lock(st, ins, cls, meth, params, args)
        if cls in ('std::atomic', 'std::__atomic_base'):
            return self.atomic(st, ins, meth, targs, params, args)
        if path in ('std::operator==', 'std::operator@ssh', 'std::operator!=', 'std::operator@lt', 'std::operator@gt',
                    'std::operator@le', 'std::operator@ge', 'std::operator+') and 'basic_string' in params and 'iterator' not in params:
            return self.strop(st, ins, path, params, args)
        if path in ('std::operator@shl',) or re.match(r'std::(basic_)?ostream::operator@shl$', path):
            return self.stream_out(st, ins, path, params, args)
        if re.match(r'std::(__cxx11::basic_(string|ostring|istring)stream|basic_(f|of|if|o|i|io)stream|(f|o|i|of|if)stream|ios_base|basic_ios|basic_filebuf)::', path):
            return self.stream(st, ins, cls, meth, params, args)
        if cls == 'std::filesystem::__cxx11::path':
            if meth in ('generic_string', 'string', 'native'):
                if meth == 'native':
                    return args[1] if len(args) > 1 else args[0]
                self.put(st, args[0], self.symstr(st, ('path', args[1].obj, args[1].off)), ins)
                return None
            if meth == 'c_str':
                return Ptr(('cstr', self.symstr(st, ('path', args[0].obj, args[0].off))), 0)
            return None if ins.a['rt'].k == 'void' else NotImplemented
        if cls in ('std::allocator', 'std::__new_allocator', '__gnu_cxx::new_allocator') and (meth.startswith('~') or meth in ('allocator', '__new_allocator', 'new_allocator')):
            return None
        return NotImplemented

    def intrinsic(self, st, ins, name, args):
        e = self.e
        if name.startswith(('llvm.memcpy', 'llvm.memmove')):
            n = args[2]
            if not (isinstance(n, Lin) and n.is_const()):
                raise Unsupported('memcpy of symbolic size')
            e.copy_mem(st, args[0], args[1], n.c, ins)
            return None
        if name.startswith('llvm.memset'):
            p = e.access(st, args[0], ins, 'memset')
            n = args[2]
            if not (isinstance(n, Lin) and n.is_const()):
                raise Unsupported('memset of symbolic size')
            if isinstance(p.off, int):
                for k in [k for k in st.mem if k[0] == p.obj and isinstance(k[1], int) and p.off <= k[1] < p.off + n.c]:
                    del st.mem[k]
                v = args[1].c if isinstance(args[1], Lin) and args[1].is_const() else None
                if v == 0:
                    for o in range(p.off, p.off + n.c):
                        st.mem[(p.obj, o)] = K(0)
                else:
                    raise Unsupported('memset')
            return None
        if name.startswith(('llvm.dbg', 'llvm.lifetime', 'llvm.assume', 'llvm.stack', 'llvm.experimental')):
            return None if ins.a['rt'].k == 'void' else K(0)
        if name.startswith('llvm.threadlocal.address'):
            return args[0]
        if name.startswith('llvm.trap'):
            raise Dead('trap')
        if re.match(r'llvm\.(umin|umax|smin|smax)', name):
            w = ins.a['rt'].a
            f = e.uns if name[5] == 'u' else e.sgn
            a, b = f(st, e.lin(st, args[0]), w), f(st, e.lin(st, args[1]), w)
            le = st.decide(simp(('cmp', 'ge', b - a)))
            return (a if le else b) if 'min' in name else (b if le else a)
        if re.match(r'llvm\.(uadd|usub|umul|sadd|ssub)\.with\.overflow', name):
            w = ins.a['rt'].a[1][0].a
            sg = name[5] == 's'
            f = e.sgn if sg else e.uns
            a, b = f(st, e.lin(st, args[0]), w), f(st, e.lin(st, args[1]), w)
            if 'mul' in name:
                if not (a.is_const() or b.is_const()):
                    raise Unsupported('umul.with.overflow')
                r = b * a.c if a.is_const() else a * b.c
            else:
                r = a + b if 'add' in name else a - b
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
            ok = st.decide(simp(('cmp', 'ge', r - lo))) and st.decide(simp(('cmp', 'ge', K(hi) - r)))
            return Agg([r if ok else e.wrap(st, r, w), FALSE if ok else TRUE])
        if re.match(r'llvm\.(uadd|usub)\.sat', name):
            w = ins.a['rt'].a
            a, b = e.uns(st, e.lin(st, args[0]), w), e.uns(st, e.lin(st, args[1]), w)
            if 'uadd' in name:
                return a + b if st.decide(simp(('cmp', 'ge', K((1 << w) - 1) - a - b))) else K((1 << w) - 1)
            return a - b if st.decide(simp(('cmp', 'ge', a - b))) else K(0)
        if name.startswith('llvm.abs'):
            a = e.sgn(st, e.lin(st, args[0]), ins.a['rt'].a)
            return a if st.decide(simp(('cmp', 'ge', a))) else -a
        if name.startswith('llvm.is.constant'):
            return FALSE
        if name.startswith('llvm.expect'):
            return args[0]
        raise Unsupported('intrinsic ' + name)

    def delete(self, st, ins, p):
        e = self.e
        if isinstance(p, Ptr):
            p = st.norm(p)
            if p.obj is None:
                return None
            if p.obj in st.freed:
                st.ev.append(('doublefree', p.obj, e.where(st, ins)))
            else:
                st.ev.append(('free', p.obj, e.where(st, ins)))
                st.freed[p.obj] = e.where(st, ins)
        return None

    # ------------------------------------------------------------ std::string
    def string(self, st, ins, meth, dem, params, args):
        e = self.e
        view = 'basic_string_view' in dem.split('(')[0] and 'basic_string<' not in dem.split('(')[0]
        sret = bool(ins.a['args']) and any('sret' in (at or ()) for t, o, at in ins.a['args'][:1])
        if view and meth not in ('length', 'size', 'empty', 'operator[]', 'data'):
            return NotImplemented
        if view:
            return NotImplemented
        th = args[0]
        if meth == 'basic_string':
            ps = split_targs(params)
            ps = [p for p in ps if not p.startswith('std::allocator')]
            if not ps:
                v = Str([])
            elif len(ps) == 2 and (re.match('(__gnu_cxx::__normal|std::reverse)_iterator<', ps[0]) or
                                   ps[0] == ps[1] and ps[0] in ('char*', 'char const*')):
                v = self.str_range(st, self.itval(st, args[1]), self.itval(st, args[2]))
            elif ps[0].startswith('std::__cxx11::basic_string') or 'basic_string<' in ps[0].split('(')[0] and '_view' not in ps[0]:
                v = self.str_at(st, args[1], ins)
                if len(ps) > 1:
                    pos = e.lin(st, args[2])
                    n = e.lin(st, args[3]) if len(ps) > 2 else None
                    v = self.substr(st, v, pos, self.upto(st, n, self.slen(v) - pos) if n is not None else n)
                if ps[0].endswith('&&'):
                    st.models[self.cell(st, args[1])] = Str([])
            elif ps[0] in ('char const*',) and len(ps) == 1:
                v = self.cstr(st, args[1])
            elif ps[0] == 'unsigned long' and len(ps) == 2:
                n = e.lin(st, args[1])
                if n.is_const() and n.c <= 4:
                    v = Str([('chr', e.lin(st, args[2]))] * n.c)
                else:
                    v = self.symstr(st, ('fill', st.fresh('s')))
            else:
                v = self.symstr(st, ('ctor', st.fresh('s')))
                st.notes.append(('string', dem))
            self.put(st, th, v, ins, ev=False)
            return None
        if meth.startswith('~'):
            st.models.pop(self.cell(st, th, ins), None)
            return None
        if meth in ('length', 'size'):
            return self.slen(self.str_at(st, th, ins))
        if meth == 'empty':
            return B(simp(('cmp', 'eq', self.slen(self.str_at(st, th, ins)))))
        if meth in ('operator[]', 'at'):
            s = self.str_at(st, th, ins)
            i = e.uns(st, e.lin(st, args[1]), 64)
            st.ev.append(('sidx', s, i, e.where(st, ins)))
            return Ptr(('chr', s, i, self.cell(st, th)), 0)
        if meth in ('front', 'back'):
            s = self.str_at(st, th, ins)
            i = K(0) if meth == 'front' else self.slen(s) - 1
            st.ev.append(('sidx', s, i, e.where(st, ins)))
            return Ptr(('chr', s, i, self.cell(st, th)), 0)
        if meth == 'substr':
            if not sret:
                return NotImplemented
            s = self.str_at(st, args[1], ins)
            pos = e.uns(st, e.lin(st, args[2]), 64)
            n = e.uns(st, e.lin(st, args[3]), 64)
            if not st.decide(simp(('cmp', 'ge', self.slen(s) - pos))):
                st.ev.append(('throw', 'substr past the end', e.where(st, ins)))
                raise Dead('substr throws')
            self.put(st, args[0], self.substr(st, s, pos, self.upto(st, n, self.slen(s) - pos)), ins, ev=False)
            return None
        if meth in ('operator=', 'assign'):
            ps = split_targs(params)
            if ps and ps[0].startswith('std::__cxx11::basic_string') and len(ps) == 1:
                v = self.str_at(st, args[1], ins)
                same = st.norm(args[0]) == st.norm(args[1])
                self.put(st, th, v, ins)
                if ps[0].endswith('&&') and not same:
                    st.models[self.cell(st, args[1])] = Str([])
            elif ps and ps[0] == 'char const*' and len(ps) == 1:
                self.put(st, th, self.cstr(st, args[1]), ins)
            elif ps and ps[0] == 'char':
                self.put(st, th, Str([('chr', e.lin(st, args[1]))]), ins)
            elif len(ps) == 3 and ps[0].startswith('std::__cxx11::basic_string'):
                s = self.str_at(st, args[1], ins)
                self.put(st, th, self.substr(st, s, e.lin(st, args[2]), e.lin(st, args[3])), ins)
            else:
                self.put(st, th, self.symstr(st, ('asg', st.fresh('s'))), ins)
                st.notes.append(('string', dem))
            return th
        if meth == 'clear':
            self.put(st, th, Str([]), ins)
            return None
        if meth in ('append', 'operator+=', 'push_back'):
            s = self.str_at(st, th, ins)
            ps = split_targs(params)
            if ps and ps[0] == 'char':
                v = [('chr', e.lin(st, args[1]))]
            elif ps and ps[0].startswith('std::__cxx11::basic_string') and len(ps) == 1:
                v = list(self.str_at(st, args[1], ins).parts)
            elif ps == ['char const*']:
                v = list(self.cstr(st, args[1]).parts)
            elif ps == ['unsigned long', 'char'] and isinstance(args[1], Lin) and args[1].is_const() and args[1].c <= 4:
                v = [('chr', e.lin(st, args[2]))] * args[1].c
            else:
                raise Unsupported('string append ' + params)
            self.put(st, th, self.normstr(st, list(s.parts) + v), ins)
            return th if meth != 'push_back' else None
        if meth == 'pop_back':
            s = self.str_at(st, th, ins)
            self.put(st, th, self.substr(st, s, K(0), self.slen(s) - 1), ins)
            return None
        if meth == 'erase' and params.startswith('unsigned long'):
            s = self.str_at(st, th, ins)
            pos, n = e.lin(st, args[1]), e.lin(st, args[2])
            n = e.uns(st, n, 64)
            a = self.substr(st, s, K(0), pos)
            if n.is_const() and n.c >= (1 << 62) or not st.decide(('cmp', 'ge', self.slen(s) - pos - n)):
                b = Str([])
            else:
                b = self.substr(st, s, pos + n, None)
            self.put(st, th, self.normstr(st, list(a.parts) + list(b.parts)), ins)
            return th
        if meth == 'insert' and len(args) >= 3 and params.startswith('unsigned long'):
            s = self.str_at(st, th, ins)
            ps = split_targs(params)
            pos = e.lin(st, args[1])
            if ps[1:] == ['unsigned long', 'char'] and isinstance(args[2], Lin) and args[2].is_const() and args[2].c <= 4:
                v = [('chr', e.lin(st, args[3]))] * args[2].c
            elif len(ps) == 2 and ps[1].startswith('std::__cxx11::basic_string'):
                v = list(self.str_at(st, args[2], ins).parts)
            else:
                raise Unsupported('string insert ' + params)
            a = self.substr(st, s, K(0), pos)
            b = self.substr(st, s, pos, None)
            self.put(st, th, self.normstr(st, list(a.parts) + v + list(b.parts)), ins)
            return th
        if meth == 'compare' and params.startswith('std::__cxx11::basic_string') and len(args) == 2:
            return self.strcmp(st, self.str_at(st, th, ins), self.str_at(st, args[1], ins))
        if meth == 'compare' and re.match(r'unsigned long, unsigned long, std::__cxx11::basic_string', params) and len(args) in (4, 6):
            def part(s, pos, n):
                pos, n = e.uns(st, e.lin(st, pos), 64), e.uns(st, e.lin(st, n), 64)
                if not st.decide(simp(('cmp', 'ge', self.slen(s) - pos))):
                    st.ev.append(('throw', 'compare past the end', e.where(st, ins)))
                    raise Dead('compare throws')
                return self.substr(st, s, pos, self.upto(st, n, self.slen(s) - pos))
            x = part(self.str_at(st, th, ins), args[1], args[2])
            y = self.str_at(st, args[3], ins)
            if len(args) == 6:
                y = part(y, args[4], args[5])
            return self.strcmp(st, x, y)
        if meth in ('find', 'rfind', 'find_first_of', 'find_last_of', 'contains', 'starts_with', 'ends_with'):
            ps = split_targs(params)
            s = self.str_at(st, th, ins)
            pat = Str([('chr', e.lin(st, args[1]))]) if ps[0] == 'char' else self.cstr(st, args[1]) if ps[0] == 'char const*' else \
                self.str_at(st, args[1], ins) if ps[0].startswith('std::__cxx11::basic_string') else None
            if pat is None or len(args) > 3 or not all(p[0] == 'chr' for p in s.parts + pat.parts):
                raise Unsupported('string method ' + meth)
            n, m = len(s.parts), len(pat.parts)
            if meth.startswith('find_'):
                m = 1
            at = range(n - m + 1)
            if len(args) > 2:
                pos = e.uns(st, e.lin(st, args[2]), 64)
                if not pos.is_const():
                    raise Unsupported('string method ' + meth)
                at = [i for i in at if (i <= pos.c if meth in ('rfind', 'find_last_of') else i >= pos.c)]
            if meth in ('starts_with', 'ends_with'):
                at = [i for i in at if i == (0 if meth[0] == 's' else n - m)]
            if meth in ('rfind', 'find_last_of'):
                at = list(at)[::-1]
            for i in at:
                if meth.startswith('find_'):
                    ok = any(st.decide(simp(('cmp', 'eq', s.parts[i][1] - q[1]))) for q in pat.parts)
                else:
                    ok = all(st.decide(simp(('cmp', 'eq', s.parts[i + j][1] - q[1]))) for j, q in enumerate(pat.parts))
                if ok:
                    return K(i) if 'find' in meth else TRUE
            return K(NPOS) if 'find' in meth else FALSE
        if meth in ('c_str', 'data'):
            return Ptr(('cstr', self.str_at(st, th, ins)), 0)
        if meth in ('reserve', 'shrink_to_fit'):
            return None
        if meth == 'swap':
            a, b = self.str_at(st, th, ins), self.str_at(st, args[1], ins)
            self.put(st, th, b, ins)
            self.put(st, args[1], a, ins)
            return None
        if meth in ('begin', 'cbegin', 'end', 'cend'):
            s = self.str_at(st, th, ins)
            key = ('S', s, self.cell(st, th))
            return Op('it', key, K(0) if 'begin' in meth else self.slen(s))
        if meth in ('rbegin', 'crbegin', 'rend', 'crend') and sret:
            s = self.str_at(st, args[1], ins)
            e.store(st, th, Op('rit', ('S', s, self.cell(st, args[1])), K(0) if 'begin' in meth else self.slen(s)), PTR, ins)
            return None
        if meth in ('max_size', 'capacity'):
            return self.e.symbol(st, st.fresh('cap'), I64)
        raise Unsupported('string method ' + meth)

    def strop(self, st, ins, path, params, args):
        e = self.e
        ps = split_targs(params)
        sret = bool(ins.a['args']) and any('sret' in (at or ()) for t, o, at in ins.a['args'][:1])
        if path == 'std::operator+':
            vals = []
            for p, a in zip(ps, args[1:]):
                if p.startswith('std::__cxx11::basic_string'):
                    vals += list(self.str_at(st, a, ins).parts)
                elif p == 'char':
                    vals.append(('chr', e.lin(st, a)))
                elif p == 'char const*':
                    vals += list(self.cstr(st, a).parts)
                else:
                    raise Unsupported('string operator+')
            self.put(st, args[0], self.normstr(st, vals), ins, ev=False)
            return None
        if len(ps) != 2:
            return NotImplemented
        v = []
        for p, a in zip(ps, args):
            if p.startswith('std::__cxx11::basic_string'):
                v.append(self.str_at(st, a, ins))
            elif p == 'char const*':
                v.append(self.cstr(st, a))
            else:
                return NotImplemented
        c = self.strcmp(st, v[0], v[1])
        if path == 'std::operator@ssh':
            return c
        return B(simp({'std::operator==': ('cmp', 'eq', c), 'std::operator!=': ('cmp', 'ne', c),
                       'std::operator@lt': ('cmp', 'ge', -c - 1), 'std::operator@gt': ('cmp', 'ge', c - 1),
                       'std::operator@le': ('cmp', 'ge', -c), 'std::operator@ge': ('cmp', 'ge', c)}[path]))

    # ------------------------------------------------------------ vector<bool>
    def bits_at(self, st, p, ins=None):
        def mk(k):
            n = Lin.var(('bsize', k[0], k[1]))
            st.poly = st.poly.add('ge', n).add('ge', K(1 << 62) - n)
            return Bits(('b', k[0], k[1]), n)
        return self.get(st, p, mk, ins)

    def bitref(self, st, p):
        if isinstance(p, Op):
            return p
        p = st.norm(p)
        v = st.mem.get((p.obj, p.off))
        if isinstance(v, Op) and v.k == 'bitref':
            return v
        raise Unsupported('bit reference')

    def bit_cond(self, st, r):
        key, idx = r.a
        b = st.models[key]
        # writes: newest first
        for i, v in reversed(b.writes):
            d = idx - i
            if st.decide(simp(('cmp', 'eq', d))):
                return self.e.cond(st, v)
        c = ('bit', b.id, idx)
        if isinstance(b.id, tuple) and b.id[0] in ('zero', 'ones'):
            return F_ if b.id[0] == 'zero' else T_
        ev = st.eval(c)
        if ev is not None:
            return T_ if ev else F_
        return c

    def bits(self, st, ins, meth, params, args):
        e = self.e
        if meth == 'vector':
            if params.startswith('unsigned long'):
                n = e.uns(st, e.lin(st, args[1]), 64)
                if 'bool const&' in params:
                    v = e.load(st, args[2], I8, ins)
                    b = Bits(('zero' if st.decide(neg(e.cond(st, v))) else 'ones', st.fresh('b')), n)
                else:
                    b = Bits(('zero', st.fresh('b')), n)
            elif 'vector<bool' in params:
                b = self.bits_at(st, args[1], ins)
            else:
                b = Bits(('zero', st.fresh('b')), K(0))
            self.put(st, args[0], b, ins, ev=False)
            return None
        if meth.startswith('~'):
            return None
        if meth == 'size':
            return self.bits_at(st, args[0], ins).n
        if meth == 'empty':
            return B(simp(('cmp', 'eq', self.bits_at(st, args[0], ins).n)))
        if meth in ('operator[]', 'at'):
            b = self.bits_at(st, args[0], ins)
            i = e.uns(st, e.lin(st, args[1]), 64)
            st.ev.append(('bidx', b.id, i, b.n, e.where(st, ins)))
            r = Op('bitref', self.cell(st, args[0]), i)
            if ins.a['rt'].k == 'int':
                return B(self.bit_cond(st, r))
            return Agg([r, K(0)]) if ins.a['rt'].k == 'struct' else r
        if meth == 'push_back':
            b = self.bits_at(st, args[0], ins)
            v = args[1]
            i = b.n
            self.put(st, args[0], Bits(b.id, b.n + 1, b.writes + ((i, v),)), ins)
            st.ev.append(('bitwrite', self.cell(st, args[0]), i, v, e.where(st, ins)))
            return None
        if meth in ('reserve',):
            return None
        if meth == 'assign' and params.startswith('unsigned long') or meth == 'clear' or \
                meth == 'resize' and st.poly.entails('eq', self.bits_at(st, args[0], ins).n):
            n, kind = K(0), 'zero'
            if meth != 'clear':
                n = e.uns(st, e.lin(st, args[1]), 64)
                v = e.load(st, args[2], I8, ins) if 'bool const&' in params else args[2]
                kind = 'zero' if st.decide(neg(e.cond(st, v))) else 'ones'
            self.put(st, args[0], Bits((kind, st.fresh('b')), n), ins)
            return None
        if meth in ('begin', 'cbegin', 'end', 'cend') and ins.a['rt'].k == 'struct':
            b = self.bits_at(st, args[0], ins)
            return Agg([Op('bitit', self.cell(st, args[0]), K(0) if 'begin' in meth else b.n), K(0)])
        raise Unsupported('vector<bool>::' + meth)

    def bit_iter(self, st, ins, path, params, args):
        e = self.e
        cls, _, meth = path.rpartition('::')

        def two(v):
            return Agg([v, K(0)]) if ins.a['rt'].k == 'struct' else v
        if path == 'std::find':
            if len(args) != 5:
                return NotImplemented
            a, b = args[0], args[2]
            v = e.load(st, args[4], I8, ins)
            v = st.decide(e.cond(st, v))
            if not (isinstance(a, Op) and isinstance(b, Op) and a.k == b.k == 'bitit' and a.a[0] == b.a[0]):
                raise Unsupported('find over bits')
            bits = st.models[a.a[0]]
            if bits.writes:
                raise Unsupported('find over written bits')
            lo, hi = a.a[1], b.a[1]
            st.ev.append(('bidx', bits.id, hi - 1, bits.n, e.where(st, ins))) if st.decide(simp(('cmp', 'ge', hi - lo - 1))) else None
            # the nearest ones are told apart
            for k in range(2):
                if not st.decide(simp(('cmp', 'ge', hi - lo - k - 1))):
                    return two(b)
                if st.decide(self.bit_cond(st, Op('bitref', a.a[0], lo + k))) == v:
                    return two(Op('bitit', a.a[0], lo + k))
            f = st.fresh('found')
            if not st.decide(('atom', ('found', f))):
                st.foralls.append(('bit', bits.id, lo, hi, not v))
                return two(b)
            r = Lin.var(('idx', f))
            st.poly = st.poly.add('ge', r - lo - 2).add('ge', hi - r - 1)
            st.foralls.append(('bit', bits.id, lo, r, not v))
            c = ('bit', bits.id, r)
            if st.eval(c) is None:
                st.atoms[c] = v
            elif st.eval(c) is not v:
                raise Dead('contradiction')
            return two(Op('bitit', a.a[0], r))
        short = cls.rsplit('::', 1)[-1]
        if meth == short and len(args) == 1:
            return None
        if meth == short and 'const&' in params:
            e.store(st, args[0], self.itval(st, args[1]), PTR, ins)
            return None
        v = self.itval(st, args[0])
        if not (isinstance(v, Op) and v.k == 'bitit'):
            return NotImplemented
        if meth == 'operator*':
            b = st.models[v.a[0]]
            st.ev.append(('bidx', b.id, v.a[1], b.n, e.where(st, ins)))
            r = Op('bitref', v.a[0], v.a[1])
            return B(self.bit_cond(st, r)) if ins.a['rt'].k == 'int' else two(r)
        if meth in ('operator++', 'operator--'):
            e.store(st, args[0], Op('bitit', v.a[0], v.a[1] + (1 if meth == 'operator++' else -1)), PTR, ins)
            return two(v) if params == 'int' else args[0]
        if meth in ('operator+', 'operator-', 'operator+=', 'operator-=') and params.endswith('long'):
            d = e.sgn(st, e.lin(st, args[1]), 64)
            r = Op('bitit', v.a[0], v.a[1] + d if '+' in meth else v.a[1] - d)
            if meth.endswith('='):
                e.store(st, args[0], r, PTR, ins)
                return args[0]
            return two(r)
        w = self.itval(st, args[1]) if len(args) > 1 else None
        if isinstance(w, Op) and w.k == 'bitit' and w.a[0] == v.a[0]:
            d = v.a[1] - w.a[1]
            if meth == 'operator-':
                return d
            c = {'operator==': ('cmp', 'eq', d), 'operator!=': ('cmp', 'ne', d), 'operator@lt': ('cmp', 'ge', -d - 1)}.get(meth)
            if c:
                return B(simp(c))
        raise Unsupported(path)

    # ------------------------------------------------------------ sequences
    def seq_at(self, st, p, et, ins=None):
        def mk(k):
            if st.meta(k[0])[0] in ('alloca', 'heap') and k[0] not in st.user.get('lazyobjs', ()):
                raise Dead('use of an uninitialised container')
            n = Lin.var(('len', ('q', k[0], k[1])))
            st.poly = st.poly.add('ge', n).add('ge', K(1 << 62) - n)
            return Seq(('q', k[0], k[1]), n, et=et)
        return self.get(st, p, mk, ins)

    def new_elem(self, st, src, et, ins=None):
        """copy *src (type et) into a fresh element object"""
        o = st.new_obj('elem', 'el')
        n = self.sizeof(et)
        p = self.e.access(st, src, ins, 'copy')
        if et.startswith(STRC):
            st.models[(o, 0)] = self.str_at(st, p, ins)
            return o
        ty = self.ty_of(et)
        if ty is not None and not et.startswith('std::pair'):
            st.mem[(o, 0)] = self.e.load(st, p, ty, ins)
            return o
        lz = st.user.get('lazyobjs', ())
        self.e.copy_mem(st, Ptr(o, 0), p, n, ins)
        st.ev.pop()          # not an observable write
        return o

    def elem_ptr(self, st, base, idx):
        o = ('el', base, idx)
        if o not in st.objs:
            # congruence: equal index expressions denote the same element
            for (k, m) in list(st.objs.items()):
                if isinstance(k, tuple) and k[0] == 'el' and k[1] == base and isinstance(k[2], Lin) and isinstance(idx, Lin) \
                        and k[2] != idx and st.poly.entails('eq', k[2] - idx):
                    return Ptr(k, 0)
            st.objs[o] = ('sym', f'{oname2(base)}[{idx}]', o)
        return Ptr(o, 0)

    def seq_front(self, st, s):
        if st.decide(simp(('cmp', 'ge', s.rem() - 1))):
            return self.elem_ptr(st, s.base, K(s.lo)), s.with_(lo=s.lo + 1)
        if s.items:
            return Ptr(s.items[0], 0), s.with_(items=s.items[1:])
        raise Dead('front of an empty container')

    def seq_back(self, st, s):
        if s.items:
            return Ptr(s.items[-1], 0), s.with_(items=s.items[:-1])
        if st.decide(simp(('cmp', 'ge', s.rem() - 1))):
            return self.elem_ptr(st, s.base, ('end', s.hi)), s.with_(hi=s.hi + 1)
        raise Dead('top of an empty container')

    def seq_index(self, st, s, i):
        if s.rem().is_const() and s.rem().c == 0 or st.poly.entails('eq', s.rem()):
            if i.is_const() and 0 <= i.c < len(s.items):
                return Ptr(s.items[i.c], 0)
            if len(s.items) == 1 and st.poly.entails('eq', i):
                return Ptr(s.items[0], 0)
            for j, it in enumerate(s.items):
                if st.poly.entails('eq', i - j):
                    return Ptr(it, 0)
            return self.elem_ptr(st, ('items', s.items), i)
        if not s.items or st.decide(simp(('cmp', 'ge', s.rem() - i - 1))):
            return self.elem_ptr(st, s.base, i + s.lo)
        d = i - s.rem()
        for j, it in enumerate(s.items):
            if st.poly.entails('eq', d - j):
                return Ptr(it, 0)
        return self.elem_ptr(st, ('items', s.items), d)

    def seq(self, st, ins, cls, meth, targs, params, args):
        e = self.e
        et = split_targs(targs[0])[0] if targs else ''
        th = args[0]
        w = e.where(st, ins)
        adaptor = cls in ('std::queue', 'std::stack')
        cname = cls.rsplit('::', 1)[1]
        if meth == cname:
            ps = [p for p in split_targs(params) if not p.startswith('std::allocator')]
            if not ps:
                v = Seq(None, K(0), et=et)
            elif ps[0].startswith('std::initializer_list'):
                # (ptr array, i64 len) passed as two args
                arr, n = args[1], args[2]
                if not (isinstance(n, Lin) and n.is_const()):
                    raise Unsupported('initializer_list of unknown length')
                items = []
                sz = self.sizeof(et)
                for i in range(n.c):
                    items.append(self.new_elem(st, Ptr(arr.obj, add_off(arr.off, i * sz)), et, ins))
                v = Seq(None, K(0), items=items, et=et)
            elif ps[0].startswith(cls):
                v = self.seq_at(st, args[1], et, ins)
                if ps[0].endswith('&&'):
                    st.models[self.cell(st, args[1])] = Seq(None, K(0), et=et)
            elif ps[0] == 'unsigned long':
                n = e.uns(st, e.lin(st, args[1]), 64)
                v = Seq(('fill', st.fresh('v')), n, et=et)
            else:
                n = Lin.var(('len', st.fresh('v')))
                st.poly = st.poly.add('ge', n).add('ge', K(1 << 62) - n)
                v = Seq(('rng', st.fresh('v')), n, et=et)
            self.put(st, th, v, ins, ev=False)
            return None
        if meth.startswith('~'):
            return None
        if meth in ('operator=', 'swap', 'assign'):
            if meth == 'operator=' and cls in params:
                v = self.seq_at(st, args[1], et, ins)
                self.put(st, th, v, ins)
                st.ev.append(('cassign', self.cell(st, th), v, w))
                if params.endswith('&&'):
                    st.models[self.cell(st, args[1])] = Seq(None, K(0), et=et)
                return th
            if meth == 'swap':
                a, b = self.seq_at(st, th, et, ins), self.seq_at(st, args[1], et, ins)
                self.put(st, th, b, ins)
                self.put(st, args[1], a, ins)
                return None
            raise Unsupported('sequence ' + meth)
        s = self.seq_at(st, th, et, ins)
        key = self.cell(st, th)
        if meth in ('size', 'length'):
            return s.size()
        if meth == 'empty':
            return B(simp(('cmp', 'eq', s.size())))
        if meth in ('push_back', 'push', 'push_front'):
            o = self.new_elem(st, args[1], et, ins)
            self.put(st, th, s.with_(items=((o,) + s.items) if meth == 'push_front' else s.items + (o,)), ins)
            if meth == 'push_front' and not (s.rem().is_const() and s.rem().c == 0):
                raise Unsupported('push_front')
            st.ev.append(('push', key, o, self.elem_val(st, o, et), w))
            return None
        if meth in ('emplace', 'emplace_back'):
            o = st.new_obj('elem', 'el')
            outs = self.construct(st, ins, o, et, params, args[1:])
            res = []
            for s2 in outs:
                cur = s2.models[key] if key in s2.models else s
                self.put(s2, th, cur.with_(items=cur.items + (o,)), ins)
                s2.ev.append(('push', key, o, self.elem_val(s2, o, et), w))
                self.e.setres(s2, ins, Ptr(o, 0) if ins.a['rt'].k == 'ptr' else None)
                res.append(s2)
            if len(res) == 1 and res[0] is st:
                return Ptr(o, 0) if ins.a['rt'].k == 'ptr' else None
            return res
        fifo = cls == 'std::queue'
        if meth in ('pop', 'pop_front', 'pop_back'):
            el, s2 = (self.seq_front if (meth == 'pop_front' or meth == 'pop' and fifo) else self.seq_back)(st, s)
            self.put(st, th, s2, ins)
            st.ev.append(('pop', key, el.obj, w))
            return None
        if meth in ('front', 'top', 'back'):
            el, _ = (self.seq_front if meth == 'front' else self.seq_back)(st, s)
            st.ev.append(('peek', key, el.obj, w))
            return el
        if meth in ('operator[]', 'at'):
            i = e.uns(st, e.lin(st, args[1]), 64)
            st.ev.append(('vidx', key, i, s.size(), w))
            return self.seq_index(st, s, i)
        if meth in ('begin', 'cbegin', 'end', 'cend'):
            r = Op('it', key, K(0) if 'begin' in meth else s.size())
            return r if ins.a['rt'].k != 'void' else self._sret_it(st, args, r)
        if meth in ('rbegin', 'crbegin', 'rend', 'crend'):
            r = Op('rit', key, K(0) if 'begin' in meth else s.size())
            self.e.store(st, args[0], r, PTR, ins)
            return None
        if meth == 'clear':
            self.put(st, th, Seq(None, K(0), et=et), ins)
            st.ev.append(('clear', key, w))
            return None
        if meth in ('reserve', 'shrink_to_fit', 'capacity', 'max_size'):
            return None if ins.a['rt'].k == 'void' else e.symbol(st, st.fresh('cap'), I64)
        if meth == 'resize':
            n = e.uns(st, e.lin(st, args[1]), 64)
            self.put(st, th, Seq(('rsz', st.fresh('v')), n, et=et), ins)
            return None
        raise Unsupported(f'{cls}::{meth}')

    def _sret_it(self, st, args, r):
        raise Unsupported('iterator returned in memory')

    def elem_val(self, st, o, et):
        if et.startswith(STRC):
            return st.models.get((o, 0))
        v = st.mem.get((o, 0))
        return v

    def construct(self, st, ins, o, et, params, args):
        """construct an et in element object o from constructor arguments (references)"""
        e = self.e
        ps = split_targs(params)
        if et.endswith('*') or self.ty_of(et) is not None and not et.startswith('std::pair') and not et.startswith('lib'):
            st.mem[(o, 0)] = e.load(st, args[0], self.ty_of(et), ins)
            return [st]
        if et.startswith('std::pair<') and len(args) == 2:
            a, b = split_targs(et[10:-1])[:2]
            for t, off, p in ((a, 0, args[0]), (b, self.second_off(a, b), args[1])):
                if t.startswith(STRC):
                    st.models[(o, off)] = self.str_at(st, p, ins)
                else:
                    st.mem[(o, off)] = e.load(st, p, self.ty_of(t), ins)
            return [st]
        if et.startswith(STRC) and len(args) == 1:
            st.models[(o, 0)] = self.str_at(st, args[0], ins) if 'basic_string' in ps[0] else self.cstr(st, args[0])
            return [st]
        base = et.rsplit('::', 1)[1] if '::' in et else et
        cands = [f for f in e.prog.find('^' + re.escape(et) + '::' + re.escape(base) + r'\(') if f.parse() and len(f.params) == len(args) + 1]
        # argument passing: references must be loaded when the constructor takes values
        for f in cands:
            try:
                av = []
                for (nm, ty, at), p in zip(f.params[1:], args):
                    if ty.k == 'ptr' and self._is_ref_param(f, len(av)):
                        av.append(p)
                    else:
                        av.append(e.load(st, p, ty, ins))
            except Unsupported:
                continue
            st.objs[o] = ('heap', 'el', o)
            outs = e.call_fn(st, f, [Ptr(o, 0)] + av)
            for s2 in outs:
                s2.user.pop('_pend', None)
                s2.objs[o] = ('elem', 'el', o)
            return outs
        raise Unsupported('emplace of ' + et)

    def _is_ref_param(self, f, i):
        ps = split_targs(skel(f.dem)[2])
        return i < len(ps) and ps[i].endswith('&')

    # ------------------------------------------------------------ iterators
    def itval(self, st, p):
        if isinstance(p, Op):
            return p
        if isinstance(p, Ptr):
            p = st.norm(p)
            v = st.mem.get((p.obj, p.off))
            if v is None:
                for d0, so, s0, n in reversed(st.cps.get(p.obj, [])):
                    if isinstance(p.off, int) and d0 <= p.off < d0 + n:
                        return self.itval(st, Ptr(so, s0 + p.off - d0))
            return v
        return p

    def it_size(self, st, it):
        c = self.cont(st, it.a[0])
        return 1 if isinstance(c, Str) else self.sizeof(c.et) if isinstance(c, Seq) and c.et else 8

    def str_range(self, st, a, b):
        if isinstance(a, Op) and isinstance(b, Op) and a.k == b.k and a.k in ('it', 'rit') and a.a[0] == b.a[0]:
            s = self.cont(st, a.a[0])
            if isinstance(s, Str):
                if a.k == 'it':
                    return self.substr(st, s, a.a[1], b.a[1] - a.a[1])
                if all(p[0] == 'chr' for p in s.parts):
                    n = len(s.parts)
                    i, j = (next((k for k in range(n + 1) if st.poly.entails('eq', x.a[1] - k)), None) for x in (a, b))
                    if i is not None and j is not None:
                        return Str(s.parts[::-1][i:j])
        raise Unsupported('string from a range')

    def nulcut(self, st, s):
        """what a C string function sees of s"""
        out = []
        for p in s.parts:
            if p[0] == 'chr':
                if st.decide(simp(('cmp', 'eq', p[1]))):
                    break
                out.append(p)
                continue
            if isinstance(p[1], tuple) and p[1][0] == 'lit':
                out.append(p)
                continue
            l = Lin.var(('nul', p[1], p[2]))
            st.poly = st.poly.add('ge', l)
            if st.decide(('cmp', 'ge', p[3] - l - 1)):
                c = self.char_var(st, p[1], p[2] + l)
                st.poly = st.poly.add('eq', c)
                out.append(('sub', p[1], p[2], l))
                break
            out.append(p)
        return self.normstr(st, out)

    def cont(self, st, key):
        if key[0] == 'S':
            return key[1]
        return st.models.get(key)

    def iteq(self, st, a, b):
        if a == b:
            return T_
        if a.k in ('it', 'rit') and b.k == a.k and a.a[0] == b.a[0]:
            return simp(('cmp', 'eq', a.a[1] - b.a[1]))
        if a.k in ('cit', 'cend') and b.k in ('cit', 'cend') and a.a[0] == b.a[0]:
            c = self.cont(st, a.a[0])
            ia = a.a[-1] if a.k == 'cit' else c.size()
            ib = b.a[-1] if b.k == 'cit' else c.size()
            return simp(('cmp', 'eq', ia - ib))
        if a.k == 'citel' and b.k == 'cend' or a.k == 'cend' and b.k == 'citel':
            return F_
        if a.k == 'citel' and b.k == 'citel':
            return T_ if a.a[1] == b.a[1] else ('atom', ('iteq', a, b))
        return ('atom', ('iteq', a, b))

    def deref(self, st, v, ins):
        e = self.e
        if v is None or v is UNDEF:
            raise Dead('dereference of an uninitialised iterator')
        if not isinstance(v, Op):
            raise Unsupported('iterator value')
        if v.k in ('it', 'rit'):
            c = self.cont(st, v.a[0])
            if isinstance(c, Str):
                i = v.a[1] if v.k == 'it' else self.slen(c) - 1 - v.a[1]
                st.ev.append(('sidx', c, i, e.where(st, ins)))
                return Ptr(('chr', c, i, None), 0)
            i = v.a[1] if v.k == 'it' else c.size() - 1 - v.a[1]
            st.ev.append(('vidx', v.a[0], i, c.size(), e.where(st, ins)))
            return self.seq_index(st, c, i)
        if v.k == 'cit':
            key, idx = v.a
            c = self.cont(st, key)
            st.ev.append(('iter', key, idx, c, e.where(st, ins)))
            o = self.nth(st, key, c, idx)
            if o is not None:
                return Ptr(o, 0)
            o = ('cel', (c.base, c.ins, c.dels) if (c.ins or c.dels) else c.base, idx)
            if o not in st.objs:
                st.objs[o] = ('sym', f'{key}{{{idx}}}', o)
            return Ptr(o, 0)
        if v.k == 'citel':
            return Ptr(v.a[1], 0)
        if v.k == 'cend':
            st.ev.append(('endderef', v.a[0], e.where(st, ins)))
            raise Dead('dereference of end()')
        raise Unsupported('iterator value')

    def key_lt(self, st, a, b):
        if isinstance(a, Ptr):
            a = self.e.lin(st, a)
        if isinstance(b, Ptr):
            b = self.e.lin(st, b)
        if isinstance(a, Agg) and isinstance(b, Agg):
            if self.key_lt(st, a.v[0], b.v[0]):
                return True
            return st.decide(self.key_eq(a.v[0], b.v[0])) and self.key_lt(st, a.v[1], b.v[1])
        if isinstance(a, Lin) and isinstance(b, Lin):
            return st.decide(simp(('cmp', 'ge', b - a - 1)))
        if isinstance(a, Str) and isinstance(b, Str):
            c = self.strcmp(st, a, b)
            return st.decide(simp(('cmp', 'ge', -c - 1)))
        raise Unsupported('order of keys')

    def nth(self, st, key, c, idx):
        """the idx-th element in iteration order, when the contents are known"""
        if c.base is not None:
            return None
        n = next((i for i in range(len(c.ins)) if st.poly.entails('eq', idx - i)), None)
        if n is None:
            return None
        if c.sorted:
            if len(c.ins) == 1:
                return c.ins[0][1]
            kv = [x[0] for x in c.ins]
            rank = [sum(1 for j in range(len(kv)) if j != i and self.key_lt(st, kv[j], kv[i])) for i in range(len(kv))]
            if n in rank:
                return c.ins[rank.index(n)][1]
            return None
        items = c.ins
        if len(items) > 1 and st.decide(('atom', ('itord', key, items))):
            items = items[::-1]
        return items[n][1]

    def put_key(self, st, o, off, kt, kv):
        if isinstance(kv, Op) and kv.k == 'nodekey':
            # a copy of the node
            src = kv.a[0].obj
            for d in (st.mem, st.models):
                for (oo, f), v in list(d.items()):
                    if oo == src:
                        d[(o, f)] = v
            st.cps.setdefault(o, [])
            return Op('nodekey', Ptr(o, 0))
        if isinstance(kv, (Lin, Ptr)):
            st.mem[(o, off)] = kv
        elif isinstance(kv, Str):
            st.models[(o, off)] = kv
        elif isinstance(kv, Op) and kv.k == 'keyc':
            for f, v in kv.a[0]:
                (st.models if isinstance(v, Str) else st.mem)[(o, off + f)] = v
        elif isinstance(kv, Agg) and kt.startswith('std::pair<'):
            a, b = split_targs(kt[10:-1])[:2]
            self.put_key(st, o, off, a, kv.v[0])
            self.put_key(st, o, off + self.second_off(a, b), b, kv.v[1])

    def iter(self, st, ins, cls, meth, params, args):
        e = self.e
        if meth.startswith('~'):
            return None
        v = self.itval(st, args[0])
        short = cls.rsplit('::', 1)[1]
        if meth == short:
            if len(args) == 1:
                return None
            src = args[1]
            sv = self.itval(st, src)
            if isinstance(sv, Op):
                e.store(st, args[0], sv, PTR, ins)
                return None
            return NotImplemented
        if not isinstance(v, Op):
            return NotImplemented
        if meth == 'operator*' or meth == 'operator@arrow':
            return self.deref(st, v, ins)
        if meth in ('operator++', 'operator--'):
            if v.k not in ('it', 'rit', 'cit'):
                raise Unsupported('increment of ' + v.k)
            d = 1 if meth == 'operator++' else -1
            nv = Op(v.k, *(v.a[:-1] + (v.a[-1] + d,)))
            e.store(st, args[0], nv, PTR, ins)
            return v if params == 'int' else args[0]
        if meth in ('operator+', 'operator-') and params == 'long':
            d = e.lin(st, args[1])
            return Op(v.k, *(v.a[:-1] + (v.a[-1] + d if meth == 'operator+' else v.a[-1] - d,)))
        if meth == 'operator=':
            e.store(st, args[0], self.itval(st, args[1]), PTR, ins)
            return args[0]
        if meth == 'base':
            return args[0]
        raise Unsupported(f'{cls}::{meth}')

    # ------------------------------------------------------------ associative
    def assoc_at(self, st, p, kt, vt, ins=None):
        def mk(k):
            if st.meta(k[0])[0] in ('alloca', 'heap') and k[0] not in st.user.get('lazyobjs', ()):
                raise Dead('use of an uninitialised container')
            n = Lin.var(('len', ('m', k[0], k[1])))
            st.poly = st.poly.add('ge', n).add('ge', K(1 << 62) - n)
            return Coll(('m', k[0], k[1]), n, kt=kt, vt=vt)
        return self.get(st, p, mk, ins)

    def key_val(self, st, p, kt, ins=None):
        """abstract value of a key object"""
        e = self.e
        if kt.startswith(STRC):
            return self.str_at(st, p, ins)
        if kt.startswith('std::pair<'):
            a, b = split_targs(kt[10:-1])[:2]
            off = self.second_off(a, b)
            return Agg([self.key_val(st, p, a, ins), self.key_val(st, Ptr(p.obj, add_off(p.off, off)), b, ins)])
        ty = self.ty_of(kt)
        if ty is not None and (not kt.startswith('liblev') or kt.strip().endswith('*')):
            v = e.load(st, p, ty, ins)
            if isinstance(v, B):
                v = e.lin(st, v)
            return v
        p = st.norm(p)
        if kt == 'liblevenshtein::DawgNode' and self.nodeq is not None:
            return Op('nodekey', Ptr(p.obj, p.off))
        # a library class: its texts and scalars
        n = self.sizeof(kt)
        if isinstance(p.off, int):
            parts = [(f - p.off, v) for (o, f), v in st.models.items() if o == p.obj and isinstance(f, int) and p.off <= f < p.off + n]
            scal = [(f - p.off, v) for (o, f), v in st.mem.items() if o == p.obj and isinstance(f, int) and p.off <= f < p.off + n]
            if parts and all(isinstance(v, Str) for _, v in parts) and all(isinstance(v, (Lin, Ptr)) for _, v in scal):
                return Op('keyc', tuple(sorted(parts, key=lambda x: x[0]) + sorted(scal, key=lambda x: x[0])))
        return Op('keyobj', p.obj, p.off)

    def str_eq(self, a, b):
        if a == b:
            return T_
        if all(x[0] == 'chr' for x in a.parts + b.parts):
            if len(a.parts) != len(b.parts):
                return F_
            cs = [simp(('cmp', 'eq', x[1] - y[1])) for x, y in zip(a.parts, b.parts)]
            r = cs[0]
            for c in cs[1:]:
                r = simp(('and', r, c))
            return r
        return ('atom', ('keq', a, b) if repr(a) < repr(b) else ('keq', b, a))

    def key_eq(self, a, b):
        if a == b:
            return T_
        if isinstance(a, Lin) and isinstance(b, Lin):
            return simp(('cmp', 'eq', a - b))
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return ('peq', a, b)
        if isinstance(a, Agg) and isinstance(b, Agg):
            return simp(('and', self.key_eq(a.v[0], b.v[0]), self.key_eq(a.v[1], b.v[1])))
        if isinstance(a, Str) and isinstance(b, Str):
            return self.str_eq(a, b)
        if isinstance(a, Op) and isinstance(b, Op) and a.k == b.k == 'keyc' and [x[0] for x in a.a[0]] == [x[0] for x in b.a[0]]:
            r = T_
            for (_, x), (_, y) in zip(a.a[0], b.a[0]):
                r = simp(('and', r, self.key_eq(x, y)))
            return r
        return ('atom', ('keq', a, b) if repr(a) < repr(b) else ('keq', b, a))

    def lookup(self, st, c, kv):
        """elem object for key, or None"""
        if isinstance(kv, Op) and kv.k == 'nodekey':
            for k, o in reversed(c.ins):
                if self.nodeq(st, k.a[0], kv.a[0]):
                    return o
            if c.base is None:
                return None
            raise Unsupported('nodes in an unknown container')
        for k, o in reversed(c.ins):
            if st.decide(self.key_eq(k, kv)):
                return o
        for k in c.dels:
            if st.decide(self.key_eq(k, kv)):
                return None
        if c.base is None:
            return None
        a = ('in', c.base, kv if not isinstance(kv, Agg) else tuple(kv.v))
        if st.eval(a) is None:
            # congruence of keys
            for x, val in list(st.atoms.items()):
                if x[0] == 'in' and x[1] == c.base and x != a:
                    y = x[2]
                    if isinstance(y, tuple) and isinstance(kv, Agg):
                        y = Agg(list(y))
                    q = self.key_eq(y, kv) if type(y) is type(kv) else F_
                    if st.eval(q) is True:
                        if not val:
                            return None
                        return ('mel', c.base, y if not isinstance(y, Agg) else tuple(y.v))
        if st.decide(a):
            o = ('mel', c.base, kv if not isinstance(kv, Agg) else tuple(kv.v))
            if o not in st.objs:
                st.objs[o] = ('sym', f'{oname2(c.base)}{{{kv}}}', o)
                ty = self.ty_of(c.kt)
                if isinstance(kv, (Lin, Ptr)):
                    st.mem[(o, 0)] = kv
            st.poly = st.poly.add('ge', c.blen - 1)
            return o
        return None

    def assoc(self, st, ins, cls, meth, targs, params, args):
        e = self.e
        ta = split_targs(targs[0]) if targs else ['']
        kt = ta[0]
        vt = ta[1] if 'map' in cls else None
        th = args[0]
        w = e.where(st, ins)
        cname = cls.rsplit('::', 1)[1]
        if meth == cname:
            ps = [p for p in split_targs(params) if not p.startswith('std::allocator')]
            if not ps or ps == ['unsigned long']:
                v = Coll(None, K(0), kt=kt, vt=vt, sorted='unordered' not in cls)
            elif ps[0].startswith(cls):
                v = self.assoc_at(st, args[1], kt, vt, ins)
                if ps[0].endswith('&&'):
                    st.models[self.cell(st, args[1])] = Coll(None, K(0), kt=kt, vt=vt, sorted='unordered' not in cls)
            else:
                raise Unsupported(cls + ' constructor ' + params)
            self.put(st, th, v, ins, ev=False)
            return None
        if meth.startswith('~'):
            return None
        if meth == 'operator=':
            v = self.assoc_at(st, args[1], kt, vt, ins)
            self.put(st, th, v, ins)
            st.ev.append(('cassign', self.cell(st, th), v, w))
            return th
        c = self.assoc_at(st, th, kt, vt, ins)
        key = self.cell(st, th)
        if meth in ('size', 'empty', 'begin', 'cbegin', 'end', 'cend', 'bucket_count', 'load_factor'):
            st.ev.append(('csize', key, w))
        if meth == 'size':
            return c.size()
        if meth == 'empty':
            return B(simp(('cmp', 'eq', c.size())))
        if meth in ('contains', 'count', 'find'):
            kv = self.key_val(st, args[1], kt, ins)
            o = self.lookup(st, c, kv)
            st.ev.append(('find', key, kv, o, w))
            if meth == 'contains':
                return TRUE if o is not None else FALSE
            if meth == 'count':
                return K(1 if o is not None else 0)
            return Op('citel', key, o) if o is not None else Op('cend', key)
        if meth in ('insert', 'emplace', 'try_emplace', 'insert_or_assign'):
            if vt is None:
                src = args[1]
                kv = self.key_val(st, src, kt, ins)
                vsrc = None
            elif meth == 'insert':
                src = args[1]
                kv = self.key_val(st, src, kt, ins)
                vsrc = Ptr(src.obj, add_off(src.off, self.second_off(kt, vt)))
            else:
                src = args[1]
                kv = self.key_val(st, src, kt, ins)
                vsrc = args[2] if len(args) > 2 else None
            o = self.lookup(st, c, kv)
            new = o is None
            if new:
                o = st.new_obj('elem', 'mel')
                kv = self.put_key(st, o, 0, kt, kv) or kv
                if vsrc is not None:
                    self._store_val(st, o, kt, vt, vsrc, ins)
                self.put(st, th, c.with_(ins=c.ins + ((kv, o),)), ins)
            elif meth == 'insert_or_assign' and vsrc is not None:
                self._store_val(st, o, kt, vt, vsrc, ins)
            st.ev.append(('insert', key, kv, o, new, w))
            rt = ins.a['rt']
            r = Op('citel', key, o)
            if rt.k == 'struct':
                return Agg([r, TRUE if new else FALSE])
            if rt.k == 'void':
                raise Unsupported('insert result in memory')
            return r
        if meth in ('operator[]', 'at'):
            kv = self.key_val(st, args[1], kt, ins)
            o = self.lookup(st, c, kv)
            off = self.second_off(kt, vt)
            if o is None:
                if meth == 'at':
                    raise Dead('at() throws')
                o = st.new_obj('elem', 'mel')
                kv = self.put_key(st, o, 0, kt, kv) or kv
                t = self.ty_of(vt)
                if t is not None:
                    st.mem[(o, off)] = NULL if t.k == 'ptr' else K(0)
                self.put(st, th, c.with_(ins=c.ins + ((kv, o),)), ins)
                st.ev.append(('insert', key, kv, o, True, w))
            else:
                st.ev.append(('find', key, kv, o, w))
            return Ptr(o, off)
        if meth == 'erase':
            if 'iterator' in params:
                it = args[1]
                it = self.itval(st, it)
                if isinstance(it, Op) and it.k == 'citel':
                    for k, o in c.ins:
                        if o == it.a[1]:
                            self.put(st, th, c.with_(ins=tuple(x for x in c.ins if x[1] != o)), ins)
                            break
                    else:
                        self.put(st, th, c.with_(dels=c.dels + (it.a[1][2],)), ins)
                    st.ev.append(('erase', key, it.a[1], w))
                    return Op('cunk', st.fresh('it'))
                raise Unsupported('erase(iterator)')
            kv = self.key_val(st, args[1], kt, ins)
            o = self.lookup(st, c, kv)
            st.ev.append(('erase', key, kv, w))
            if o is None:
                return K(0)
            if any(x[1] == o for x in c.ins):
                self.put(st, th, c.with_(ins=tuple(x for x in c.ins if x[1] != o)), ins)
            else:
                self.put(st, th, c.with_(dels=c.dels + (kv,)), ins)
            return K(1)
        if meth in ('begin', 'cbegin'):
            return Op('cit', key, K(0))
        if meth in ('end', 'cend'):
            return Op('cend', key)
        if meth == 'clear':
            self.put(st, th, Coll(None, K(0), kt=kt, vt=vt, sorted='unordered' not in cls), ins)
            st.ev.append(('clear', key, w))
            return None
        if meth in ('reserve', 'rehash', 'max_load_factor'):
            st.ev.append(('clear', key, w) if meth != 'max_load_factor' else ('csize', key, w))
            return None
        raise Unsupported(f'{cls}::{meth}')

    def _store_val(self, st, o, kt, vt, vsrc, ins):
        off = self.second_off(kt, vt)
        if vt.startswith(STRC):
            st.models[(o, off)] = self.str_at(st, vsrc, ins)
        else:
            t = self.ty_of(vt)
            if t is None:
                raise Unsupported('mapped type ' + vt)
            st.mem[(o, off)] = self.e.load(st, vsrc, t, ins)

    # ------------------------------------------------------------ atomics
    def atomic(self, st, ins, meth, targs, params, args):
        """no access to an atomic is a data race; where other threads interfere, what it
        holds is not known"""
        e = self.e
        th = st.norm(args[0])
        t = self.ty_of(targs[0]) if targs else None
        if t is None or not isinstance(th, Ptr):
            raise Unsupported('std::atomic')
        key = (th.obj, th.off)
        rt = ins.a['rt']
        if meth.startswith('~'):
            return None
        if meth in ('atomic', '__atomic_base'):
            st.mem[key] = args[1] if len(args) > 1 else NULL if t.k == 'ptr' else K(0)
            return None
        local = st.meta(th.obj)[0] == 'alloca'
        old = st.mem.get(key)
        if old is None or not local and ('interfere' in st.user or st.meta(th.obj)[0] == 'global'):
            old = e.symbol(st, st.fresh('atomic'), t)
        if meth == 'load' or meth.startswith('operator ') or meth.startswith('operator@conv') or rt.k != 'void' and len(args) == 1 and 'operator' in meth and meth not in ('operator++', 'operator--'):
            st.mem[key] = old
            return old
        if meth in ('store', 'exchange', 'operator='):
            st.mem[key] = args[1]
            return None if meth == 'store' else old if meth == 'exchange' else args[1]
        step = {'operator++': 1, 'operator--': -1}.get(meth)
        if t.k == 'int' and (step or meth in ('fetch_add', 'fetch_sub', 'operator+=', 'operator-=')):
            d = K(step) if step else e.lin(st, args[1]) * (-1 if meth in ('fetch_sub', 'operator-=') else 1)
            new = e.symbol(st, st.fresh('atomic'), t)     # may wrap round
            if e.lin(st, old).is_const():
                new = e.lin(st, old) + d
            st.mem[key] = new
            return old if meth.startswith('fetch') or params == 'int' and step else new
        raise Unsupported(f'std::atomic::{meth}')

    # ------------------------------------------------------------ locks
    def interfere(self, st):
        """between two critical sections other threads put into the shared containers
        whatever they like"""
        who = st.user.get('interfere')
        if who is None:
            return
        held = sum({'lock': 1, 'unlock': -1}.get(ev[0], 0) for ev in st.ev)
        if held:
            return
        for k, v in list(st.models.items()):
            if k[0] == who and isinstance(v, Coll):
                b = ('m', k[0], k[1], st.fresh('others'))
                n = Lin.var(('len', b))
                st.poly = st.poly.add('ge', n).add('ge', K(1 << 62) - n)
                st.models[k] = Coll(b, n, kt=v.kt, vt=v.vt, sorted=v.sorted)

    def lock(self, st, ins, cls, meth, params, args):
        w = self.e.where(st, ins)
        mode = 'shared' if cls == 'std::shared_lock' else 'excl'
        short = cls.rsplit('::', 1)[1]
        if cls in ('std::shared_mutex', 'std::mutex'):
            if meth in ('lock', 'lock_shared'):
                self.interfere(st)
                st.ev.append(('lock', 'excl' if meth == 'lock' else 'shared', st.norm(args[0]), w))
            elif meth in ('unlock', 'unlock_shared'):
                st.ev.append(('unlock', 'excl' if meth == 'unlock' else 'shared', st.norm(args[0]), w))
            elif meth.startswith('try'):
                raise Unsupported('try_lock')
            return None
        key = self.cell(st, args[0])
        if meth == short:
            if len(args) < 2:
                return None
            if 'defer' in params or 'adopt' in params or 'try' in params:
                raise Unsupported('lock tag')
            self.interfere(st)
            st.models[key] = Op('lk', mode, st.norm(args[1]), True)
            st.ev.append(('lock', mode, st.norm(args[1]), w))
            return None
        v = st.models.get(key)
        if v is None:
            raise Unsupported('lock object')
        if meth.startswith('~') or meth == 'unlock':
            if v.a[2]:
                st.ev.append(('unlock', v.a[0], v.a[1], w))
                st.models[key] = Op('lk', v.a[0], v.a[1], False)
            return None
        if meth == 'lock':
            self.interfere(st)
            st.ev.append(('lock', v.a[0], v.a[1], w))
            st.models[key] = Op('lk', v.a[0], v.a[1], True)
            return None
        raise Unsupported(f'{cls}::{meth}')

    # ------------------------------------------------------------ streams
    def content(self, st, o):
        k = (o, -1)
        v = st.models.get(k)
        if v is None:
            v = Op('stream', self.symstr(st, ('strm', o)))
            st.models[k] = v
            st.lazy[('M', k)] = v
        return v.a[0]

    def stream_out(self, st, ins, path, params, args):
        e = self.e
        p = st.norm(args[0])
        w = e.where(st, ins)
        ps = split_targs(params)
        if path == 'std::operator@shl':
            t = ps[1] if len(ps) > 1 else ''
            if 'basic_string' in t:
                v = list(self.str_at(st, args[1], ins).parts)
            elif t in ('char', 'signed char', 'unsigned char'):
                v = [('chr', e.lin(st, args[1]))]
            elif t == 'char const*':
                v = list(self.cstr(st, args[1]).parts)
            else:
                return NotImplemented
        else:
            v = [('sub', ('fmt', st.fresh('o')), K(0), Lin.var(('len', st.fresh('fmt'))))]
        cur = self.content(st, p.obj)
        st.models[(p.obj, -1)] = Op('stream', self.normstr(st, list(cur.parts) + v))
        st.ev.append(('out', p.obj, tuple(v), w))
        return args[0]

    def stream(self, st, ins, cls, meth, params, args):
        e = self.e
        w = e.where(st, ins)
        short = cls.rsplit('::', 1)[1]
        rt = ins.a['rt']
        if meth.startswith('~'):
            p = st.norm(args[0])
            st.ev.append(('sdtor', p.obj, w))
            return None
        if meth == short:
            p = st.norm(args[0])
            if 'stringstream' in short:
                st.models[(p.obj, -1)] = Op('stream', Str([]))
            st.ev.append(('sopen', p.obj, short, tuple(args[1:]), w))
            # virtual base at a fixed place
            vt = ('svt', p.obj)
            st.objs[vt] = ('sym', 'vtable', vt)
            st.atoms[('isnull', vt)] = False
            for off in (0, 16):
                st.mem[(p.obj, off)] = Ptr(vt, 0)
            for off in (-24, -32, -40):
                st.mem[(vt, off)] = K(0)
            st.user[('sver', p.obj)] = 0
            return None
        if meth == 'str':
            if rt.k == 'void' and len(args) == 2 and params == '':
                self.put(st, args[0], self.content(st, st.norm(args[1]).obj), ins, ev=False)
                return None
            if rt.k == 'void' and len(args) == 2 and 'basic_string' in params:
                o = st.norm(args[0]).obj
                st.models[(o, -1)] = Op('stream', self.str_at(st, args[1], ins))
                st.ev.append(('out', o, (), w))
                return None
            raise Unsupported('stringstream::str')
        p = st.norm(args[0])
        ver = st.user.get(('sver', p.obj), 0)
        if meth in ('close', 'flush', 'open'):
            st.ev.append(('s' + meth, p.obj, w))
            st.user[('sver', p.obj)] = ver + 1
            return args[0] if rt.k == 'ptr' else None
        if meth in ('good', 'fail', 'bad', 'eof', 'is_open', 'operator bool', 'operator!', 'rdstate'):
            st.ev.append(('sstate', p.obj, meth, ver, w))
            if meth == 'rdstate':
                return e.symbol(st, ('rdstate', p.obj, ver), I32)
            pos = {'good': 'ok', 'operator bool': 'ok', 'fail': 'ok', 'operator!': 'ok'}.get(meth)
            if pos:
                c = ('atom', ('sok', p.obj, ver))
                return B(c if meth in ('good', 'operator bool') else neg(c))
            return B(('atom', (meth, p.obj, ver)))
        if meth in ('put', 'write', 'get', 'read', 'getline', 'peek', 'seekg', 'seekp', 'tellg', 'tellp', 'clear', 'setstate', 'exceptions'):
            if meth == 'put':
                cur = self.content(st, p.obj)
                v = [('chr', e.lin(st, args[1]))]
                st.models[(p.obj, -1)] = Op('stream', self.normstr(st, list(cur.parts) + v))
                st.ev.append(('out', p.obj, tuple(v), w))
                return args[0]
            st.ev.append(('s' + meth, p.obj, w))
            st.user[('sver', p.obj)] = ver + 1
            if rt.k == 'void':
                return None
            return args[0] if rt.k == 'ptr' else e.symbol(st, st.fresh('s'), rt)
        return NotImplemented

    # ------------------------------------------------------------ protobuf
    def pb_iter(self, st, ins, path, params, args):
        e = self.e
        meth = path.rpartition('::')[2]
        if meth.startswith('RepeatedPtrIterator'):
            v = self.itval(st, args[1]) if len(args) > 1 else None
            if not isinstance(v, Op):
                raise Unsupported(path)
            e.store(st, args[0], v, PTR, ins)
            return None
        v = self.itval(st, args[0])
        w = self.itval(st, args[1]) if len(args) > 1 else None
        if not (isinstance(v, Op) and v.k == 'it'):
            raise Unsupported(path)
        if meth in ('operator*', 'operator@arrow'):
            i = v.a[1]
            xs = v.a[0][0][3]
            for n, x in enumerate(xs):
                if st.decide(simp(('cmp', 'eq', i - n))):
                    return Ptr(x, 0)
            raise Dead('index beyond a repeated field')
        if isinstance(w, Op) and w.k == 'it' and w.a[0] == v.a[0]:
            d = v.a[1] - w.a[1]
            if meth == 'operator-':
                return d
            c = {'operator==': ('cmp', 'eq', d), 'operator@lt': ('cmp', 'ge', -d - 1)}.get(meth)
            if meth == 'operator!=':
                return B(neg(simp(('cmp', 'eq', d))))
            if c:
                return B(simp(c))
        if meth in ('operator++', 'operator--'):
            e.store(st, args[0], Op('it', v.a[0], v.a[1] + (1 if meth == 'operator++' else -1)), PTR, ins)
            return v if params == 'int' else args[0]
        if meth in ('operator+', 'operator-') and params == 'long':
            d = e.sgn(st, e.lin(st, args[1]), 64)
            return Op('it', v.a[0], v.a[1] + d if meth == 'operator+' else v.a[1] - d)
        if meth == 'operator=' and isinstance(w, Op):
            e.store(st, args[0], w, PTR, ins)
            return args[0]
        raise Unsupported(path)

    def pb(self, st, ins, path, params, args):
        e = self.e
        cls, _, meth = path.rpartition('::')
        short = cls.rsplit('::', 1)[1]
        rt = ins.a['rt']
        w = e.where(st, ins)
        if not args:
            return NotImplemented
        th = args[0]
        if 'RepeatedPtrIterator' in path or meth.startswith('operator') and 'RepeatedPtrIterator' in params:
            return self.pb_iter(st, ins, path, params, args)
        if meth == short:
            if len(args) > 1 and short in params:
                st.ev.append(('pbcopy', th, args[1], w))
            else:
                st.ev.append(('pbnew', th, w))
                st.user[('pbk', st.norm(th).obj)] = True
            return None
        if meth.startswith('~'):
            st.ev.append(('pbdel', th, w))
            return None
        if not isinstance(th, Ptr):
            return NotImplemented
        p = st.norm(th)
        if cls.startswith('google::protobuf'):
            r = self.pb_repeated(st, ins, cls, meth, p, args)
            if r is not NotImplemented:
                return r
        if meth in ('SerializeToOstream', 'ParseFromIstream', 'SerializePartialToOstream', 'ParsePartialFromIstream',
                    'SerializeToString', 'ParseFromString', 'IsInitialized', 'SerializeToFileDescriptor', 'ParseFromFileDescriptor',
                    'SerializeToArray', 'ParseFromArray'):
            a = ('pbok', meth, p, st.fresh('pb'))
            if len(args) > 1 and isinstance(args[1], Ptr):
                so = st.norm(args[1]).obj
                st.user[('sver', so)] = st.user.get(('sver', so), 0) + 1
            st.ev.append(('pb', meth, p, tuple(args[1:]), a, w))
            if meth.startswith('Parse') and self.pbparse is not None:
                # a message that could not be parsed is left as it was
                if st.decide(('atom', a)):
                    self.pbparse(st, p.obj)
                    return TRUE
                return FALSE
            return B(('atom', a))
        known = ('pbk', p.obj) in st.user
        if p.obj in st.freed:
            st.ev.append(('uaf', p.obj, w))
        if meth.endswith('_size') and rt.k == 'int':
            f = meth[:-5]
            if known:
                return K(len(st.user.get(('pbr', p.obj, f), ())))
            n = Lin.var(('pbsize', p.obj, f))
            st.poly = st.poly.add('ge', n).add('ge', K((1 << 31) - 1) - n)
            return n
        if meth.startswith('set_') and len(args) == 2:
            st.ev.append(('pb', meth, p, tuple(args[1:]), None, w))
            st.user[('pbf', p.obj, meth[4:])] = args[1]
            return None
        if meth.startswith('add_'):
            f = meth[4:]
            o = st.new_obj('elem', 'pb_' + f)
            st.user[('pbk', o)] = True
            if len(args) > 1:
                st.mem[(o, 0)] = args[1]
            st.user[('pbr', p.obj, f)] = st.user.get(('pbr', p.obj, f), ()) + (o,)
            st.ev.append(('pb', meth, p, tuple(args[1:]), None, w))
            return Ptr(o, 0) if rt.k == 'ptr' else None
        if meth.startswith('clear_') or meth == 'Clear':
            f = meth[6:] if meth != 'Clear' else None
            for k in list(st.user):
                if isinstance(k, tuple) and len(k) == 3 and k[0] in ('pbf', 'pbr') and k[1] == p.obj and (f is None or k[2] == f):
                    del st.user[k]
            st.user[('pbk', p.obj)] = True
            return None
        if meth.startswith('mutable_') or meth in ('Swap', 'CopyFrom', 'MergeFrom'):
            if known and meth.startswith('mutable_') and len(args) == 1:
                return Ptr(('pbrep', p.obj, meth[8:]), 0)
            if known and meth.startswith('mutable_') and len(args) == 2:
                return self.pb_at(st, p.obj, meth[8:], args[1])
            raise Unsupported('protobuf ' + meth)
        if re.match(r'(has_)?[a-z_0-9]+$', meth) and short.startswith('Dictionary'):
            if len(args) == 1:
                if rt.k == 'ptr':
                    return Ptr(('pbrep', p.obj, meth), 0)
                v = st.user.get(('pbf', p.obj, meth))
                if v is not None:
                    return v
                if known:
                    return K(0)
                nm = ('pbf', p.obj, meth)
            else:
                i = e.lin(st, args[1])
                st.ev.append(('pbidx', p, meth, i, w))
                if known:
                    r = self.pb_at(st, p.obj, meth, i)
                    return r if rt.k == 'ptr' else st.mem[(r.obj, 0)]
                nm = ('pbe', p.obj, meth, i)
            v = e.symbol(st, nm, rt)
            return v
        return NotImplemented

    def pb_at(self, st, obj, f, i):
        xs = st.user.get(('pbr', obj, f), ())
        i = self.e.lin(st, i)
        for n in range(len(xs)):
            if st.decide(simp(('cmp', 'eq', i - n))):
                return Ptr(xs[n], 0)
        raise Dead('index beyond a repeated field')

    def pb_repeated(self, st, ins, cls, meth, p, args):
        """RepeatedField / RepeatedPtrField of a known message, and its iterators"""
        e = self.e
        if isinstance(p.obj, tuple) and p.obj[0] == 'pbrep':
            _, obj, f = p.obj
            if ('pbk', obj) not in st.user:
                raise Unsupported('repeated field of an unknown message')
            xs = st.user.get(('pbr', obj, f), ())
            scalar = 'RepeatedField<' in cls
            if meth in ('size', 'ByteSize'):
                return K(len(xs))
            if meth == 'empty':
                return TRUE if not xs else FALSE
            if meth in ('Get', 'operator[]', 'at', 'Mutable'):
                return self.pb_at(st, obj, f, args[1])
            if meth in ('Add', 'AddAlreadyReserved'):
                o = st.new_obj('elem', 'pb_' + f)
                st.user[('pbk', o)] = True
                if len(args) > 1:
                    v = args[1]
                    if isinstance(v, Ptr):
                        v = e.load(st, v, I64, ins)
                    st.mem[(o, 0)] = v
                st.user[('pbr', obj, f)] = xs + (o,)
                return Ptr(o, 0) if ins.a['rt'].k == 'ptr' else None
            if meth == 'Reserve':
                return None
            if meth in ('begin', 'cbegin', 'end', 'cend'):
                if scalar:
                    arr = ('pbarr', obj, f, xs)
                    st.objs.setdefault(arr, ('elem', 'pbarr', arr))
                    for n, x in enumerate(xs):
                        st.mem[(arr, 8 * n)] = st.mem[(x, 0)]
                    return Ptr(arr, 0 if 'begin' in meth else 8 * len(xs))
                key = (('pbseq', obj, f, xs), 0)
                st.objs.setdefault(key[0], ('elem', 'pbseq', key[0]))
                st.models[key] = Seq(None, K(0), items=xs, et='liblevenshtein::proto::Dictionary_Edge')
                return Op('it', key, K(0) if 'begin' in meth else K(len(xs)))
            raise Unsupported(f'{cls}::{meth}')
        return NotImplemented


M62 = 1 << 62
