"""Rules read off the program text directly: mutable state that outlives calls and is
shared between objects (R.static), and compile-fail witnesses that a type that frees what
its raw pointers point to cannot be duplicated memberwise (R.owner)."""
import os
import re
import subprocess
from common import *
from irparse import demangle

MUTATE = re.compile(r'::(insert|insert_or_assign|emplace|emplace_back|emplace_hint|try_emplace|push|push_back|push_front|pop|pop_back|'
                    r'pop_front|clear|erase|append|assign|resize|reserve|swap|extract|merge|operator=|operator\+=|replace|reset|release|'
                    r'operator\+\+|operator--|rehash|shrink_to_fit|str|setstate|put|write|read|get|getline|ignore|seekg|seekp|setf|precision|width|'
                    r'flags|copyfmt|imbue|open|close|flush|operator>>|operator<<|seed)(\[abi:\w+\])?$')
REFER = re.compile(r'::(operator\[\]|at|back|front|top|begin|end|data|find|operator\*|operator->|get|c_str|lower_bound|upper_bound)(\[abi:\w+\])?$')
SAFE = re.compile(r'^std::(atomic|__atomic|shared_ptr<|__shared_ptr|unique_ptr|hash|function<)')
STREAM = re.compile(r'^std::(operator@shl|operator@shr|getline|sort|swap|reverse|fill|iota)$')
LOCKS = re.compile(r'^std::(unique_lock|shared_lock|lock_guard|scoped_lock|call_once|mutex::|shared_mutex::|recursive_mutex)')


def library_functions(prog):
    out = []
    for n, f in prog.funcs.items():
        d = f.dem or n
        if n.startswith(('_GLOBAL__', '__cxx_global')):
            continue
        f.parse()
        if f.defloc and '/src/liblevenshtein/' in f.defloc[0]:
            out.append(f)
    return out


def mutable_globals(prog):
    out = {}
    for n, g in prog.globals.items():
        if g.get('const') or n.startswith(('_ZT', '.str', '_ZGV', '__')) or g.get('external'):
            continue
        out[n] = g
    return out


def scan(prog, fn, globs, der=None, depth=0):
    """(instruction, global, what) for every write to a mutable global in fn"""
    found = []
    der = dict(der or {})          # register -> global
    slot = {}         # alloca register -> global whose address it holds
    allocas = set()

    def glob_of(op):
        if not isinstance(op, tuple):
            return None
        if op[0] == 'glb' and op[1] in globs:
            return op[1]
        if op[0] in ('loc', 'reg') and op[1] in der:
            return der[op[1]]
        for x in op[1:]:
            if isinstance(x, (tuple, list)):
                for y in (x if isinstance(x, list) else [x]):
                    r = glob_of(y)
                    if r:
                        return r
        return None
    for _ in range(3):
        for b in fn.blocks.values():
            for i in b.ins:
                if i.op == 'alloca':
                    allocas.add(i.res)
                elif i.op == 'gep':
                    g = glob_of(i.a['base'])
                    if g:
                        der[i.res] = g
                elif i.op == 'cast' and i.a['op'] in ('bitcast', 'addrspacecast'):
                    g = glob_of(i.a['val'])
                    if g:
                        der[i.res] = g
                elif i.op == 'store':
                    g = glob_of(i.a['val'])
                    p = i.a['ptr']
                    if g and i.a['ty'].k == 'ptr' and p[0] in ('loc', 'reg') and p[1] in allocas:
                        slot[p[1]] = g
                elif i.op == 'load' and i.a['ty'].k == 'ptr':
                    p = i.a['ptr']
                    if p[0] in ('loc', 'reg') and p[1] in slot:
                        der[i.res] = slot[p[1]]
                    elif p[0] == 'glb' and p[1] in globs:
                        der[i.res] = p[1]       # what a global pointer points to
                elif i.op == 'call' and i.a['callee'][0] == 'glb' and i.res and i.a['args']:
                    nm = skel(prog.dem(i.a['callee'][1]))[0]
                    if REFER.search(nm):
                        g = glob_of(i.a['args'][0][1])
                        if g and i.a['rt'].k == 'ptr':
                            der[i.res] = g
    for bn, b in fn.blocks.items():
        if re.match(r'init(\.check)?\d*$', bn):
            continue          # first initialisation of a function-local static, guarded
        for i in b.ins:
            if i.op == 'store':
                g = glob_of(i.a['ptr'])
                p = i.a['ptr']
                if g and not (p[0] in ('loc', 'reg') and p[1] in allocas):
                    found.append((i, g, 'written'))
            elif i.op == 'call' and i.a['callee'][0] == 'glb' and i.a['args']:
                d = prog.dem(i.a['callee'][1])
                path = skel(d)[0]
                os = [glob_of(o) if t.k == 'ptr' else None for t, o, _ in i.a['args']]
                if not any(os) or SAFE.match(path):
                    continue
                n = prog.resolve(i.a['callee'][1])
                if n in prog.funcs and depth < 3 and n != fn.name:
                    f2 = prog.funcs[n].parse()
                    if f2.defloc and '/src/liblevenshtein/' in f2.defloc[0]:
                        der2 = {q[0]: g for q, g in zip(f2.params, os) if g and not locks(prog, f2)}
                        if der2 and any(x for x in scan(prog, f2, {}, der2, depth + 1)):
                            found.append((i, next(g for g in os if g), f'changed by {path.split("::")[-1]}'))
                        continue
                if d.rstrip().endswith(' const'):
                    continue
                if MUTATE.search(path.replace('operator@shl', 'operator<<').replace('operator@shr', 'operator>>')) or STREAM.match(path):
                    if os[0]:
                        found.append((i, os[0], f'changed by {path.split("::")[-1].replace("operator@shl", "operator<<")}'))
    return found


def locks(prog, f):
    return any(i.op == 'call' and i.a['callee'][0] == 'glb' and LOCKS.search(prog.dem(i.a['callee'][1])) for b in f.blocks.values() for i in b.ins)


def check_static(ctx, part='query'):
    """no library function changes state shared by all objects, unless it synchronises"""
    R, inst = 'R.static', part
    prog = ctx.prog
    globs = mutable_globals(prog)
    fs = library_functions(prog)
    fs = [f for f in fs if ('/distance/' in f.defloc[0] and '/transducer/' not in f.defloc[0]) == (part == 'distance')]
    if not fs:
        raise AnchorLost('library functions')
    for f in fs:
        ctx.functions.add(f.name)
        ctx.calls += sum(1 for b in f.blocks.values() for i in b.ins if i.op == 'call')
        hits = scan(prog, f, globs)
        locked = locks(prog, f)
        for i, g, how in hits:
            w = ctx.locof(f)
            name = prog.dem(g)
            if locked or globs[g].get('tls'):
                ctx.maybe(R, inst, w, f'{f.dem}: the static object {name} is {how}')
            else:
                ctx.bad(R, inst, w, f'{f.dem}: the static object {name}, shared by every caller, is {how} without synchronisation')
        if not hits:
            ctx.ok(R, inst, ctx.locof(f))
    ctx.instances[R + '.' + part] = dict(functions=len(fs), mutable_globals=len(globs))


# ---------------------------------------------------------------- witnesses
def frees(prog, fn, depth=0, seen=None):
    """does the destructor (or a library function it calls) delete something?"""
    seen = seen if seen is not None else set()
    if fn.name in seen or depth > 4:
        return False
    seen.add(fn.name)
    fn.parse()
    for b in fn.blocks.values():
        for i in b.ins:
            if i.op != 'call':
                continue
            c = i.a['callee']
            if c[0] != 'glb':
                if depth == 0:
                    # a virtual destructor called through a vtable
                    return True
                continue
            if c[1].startswith(('_ZdlPv', '_ZdaPv')):
                return True
            n = prog.resolve(c[1])
            if n in prog.funcs:
                g = prog.funcs[n].parse()
                if g.defloc and ('/src/liblevenshtein/' in g.defloc[0] or 'liblevenshtein::' in g.dem.split('(')[0] and 'lambda' in g.dem or
                                 '{lambda' in g.dem and 'liblevenshtein' in g.dem) and frees(prog, g, depth + 1, seen):
                    return True
    return False


def touched(prog, fn, fields, seen=None, depth=0):
    """{field: (struct type, index)}: members the destructor, or what it calls in the library, looks at"""
    seen = seen if seen is not None else set()
    out = {}
    if fn.name in seen or depth > 4:
        return out
    seen.add(fn.name)
    fn.parse()
    # members whose own destructor is all that runs
    used, dtor = set(), set()
    for b in fn.blocks.values():
        for i in b.ins:
            ops = [o[1] for o in i.a.values() if isinstance(o, tuple) and len(o) == 2 and o[0] == 'reg']
            if i.op == 'call':
                mine = [o[1] for _, o, _ in i.a['args'] if o[0] == 'reg']
                (dtor if i.a['callee'][0] == 'glb' and '::~' in prog.dem(i.a['callee'][1]) else used).update(mine)
            used.update(ops)
    for b in fn.blocks.values():
        for i in b.ins:
            if i.op == 'gep' and i.res in dtor - used:
                continue
            if i.op == 'gep' and len(i.a['idx']) == 2 and i.a['ty'].k == 'struct' and i.a['idx'][1][1][0] == 'int':
                n = i.res.lstrip('%')
                for f in (n, re.sub(r'\d+$', '', n)):
                    if f in fields:
                        out.setdefault(f, (i.a['ty'], i.a['idx'][1][1][1]))
                        break
            elif i.op == 'call' and i.a['callee'][0] == 'glb':
                n = prog.resolve(i.a['callee'][1])
                if n in prog.funcs:
                    g = prog.funcs[n].parse()
                    if g.defloc and '/src/liblevenshtein/' in g.defloc[0]:
                        for f, x in touched(prog, g, fields, seen, depth + 1).items():
                            out.setdefault(f, x)
    return out


MAKERS = ['extern "C" void lev_w0(void *p, const T &x) { new (p) T(x); }', 'extern "C" void lev_w1(T &y, const T &x) { y = x; }',
          'extern "C" void lev_w2(void *p, T &x) { new (p) T(std::move(x)); }', 'extern "C" void lev_w3(T &y, T &x) { y = std::move(x); }']


def user_member(ctx, path, t, j, own):
    """does the member j written by hand leave both objects holding the same memory?"""
    prog = ctx.prog
    name = f'lev_w{j}'
    src, out = path.replace('.cpp', f'.w{j}.cpp'), path.replace('.cpp', f'.w{j}.ll')
    with open(path) as f:
        head = [l for l in f.read().splitlines() if l.startswith('#include')]
    with open(src, 'w') as o:
        o.write('#include <new>\n#include <utility>\n' + '\n'.join(head) + f'\nusing T = {t.replace("std::__cxx11::", "std::")};\n{MAKERS[j]}\n')
    r = subprocess.run(['clang++'] + prog.flags() + ['-O0', '-Xclang', '-disable-O0-optnone', '-gline-tables-only', '-fno-discard-value-names',
                                                     '-w', '-S', '-emit-llvm', '-o', out, src], capture_output=True, text=True)
    if r.returncode:
        return None
    prog.funcs.pop(name, None)
    prog.load([out])
    e = ctx.engine()
    st = State()
    for x in ('to', 'from'):
        st.objs[x] = ('sym', x, x) if x == 'from' or j in (1, 3) else ('heap', x, x)
    from irparse import field_off
    outs = call1(e, st, prog.funcs[name], [Ptr('to', 0), Ptr('from', 0)])
    ctx.account(e)
    bad = None
    for o in outs:
        for f, (ty, idx, raw) in own.items():
            off = field_off(ty, idx)[0]
            if raw:
                a, b = o.mem.get(('to', off)), o.mem.get(('from', off))
                if a is None or b is None:
                    continue
                a, b = o.norm(a), o.norm(b)
                if isinstance(a, Ptr) and a == b and a.obj is not None and o.exact() and o.eval(('isnull', a)) is not True:
                    bad = f
            else:
                a, b = o.models.get(('to', off)), o.models.get(('from', off))
                if a is not None and a == b and o.exact() and not o.poly.entails('eq', a.size()):
                    bad = f
    return bad if bad else (False if outs and not e.dead else None)


TRAITS = [('is_copy_constructible_v', 'copied'), ('is_copy_assignable_v', 'copy-assigned'),
          ('is_move_constructible_v', 'moved'), ('is_move_assignable_v', 'move-assigned')]


def check_owner(ctx):
    R, inst = 'R.owner', 'types that free what they point to'
    prog = ctx.prog
    types = {}
    for d, fs in prog.by_dem.items():
        m = re.match(r'(liblevenshtein::.*)::~(\w+)\(\)$', d)
        if not m:
            continue
        f = next((x for x in fs if 'D2' in x.name), fs[0]).parse()
        if f.defloc and '/src/liblevenshtein/' in f.defloc[0] and frees(prog, f):
            types[m.group(1)] = f
    if not types:
        raise AnchorLost('destructors that free')
    hdr = {}
    src = os.path.join(prog.repo, 'src')
    for root, _, fs in os.walk(src):
        for x in sorted(fs):
            if x.endswith('.h') and not x.endswith('.pb.h'):
                with open(os.path.join(root, x)) as f:
                    for c in re.findall(r'\b(?:class|struct)\s+(\w+)\s*(?:final\s*)?(?::[^;{]*)?\{', f.read()):
                        hdr.setdefault(c, os.path.relpath(os.path.join(root, x), src))
    d = os.path.join(prog.dir, 'witness')
    os.makedirs(d, exist_ok=True)
    for t in sorted(types):
        base = re.sub(r'<.*', '', t)
        cls = base.split('::')[-1]
        ctx.functions.add(types[t].name)
        loc = ctx.locof(types[t])
        if cls not in hdr:
            ctx.maybe(R, inst, loc, f'the definition of {t} was not found')
            continue
        path = os.path.join(d, f'{cls}.cpp')
        with open(path, 'w') as o:
            o.write(f'#include <type_traits>\n#include <string>\n#include "{hdr[cls]}"\n')
            o.write('struct lev_control { int *p; ~lev_control() { delete p; } };\n')
            o.write('static_assert(!std::is_copy_constructible_v<lev_control>, "LEV control");\n')
            for j, (tr, _) in enumerate(TRAITS):
                o.write(f'static_assert(!std::{tr}<{t.replace("std::__cxx11::", "std::")}>, "LEV {j}");\n')
        r = subprocess.run(['clang++'] + prog.flags() + ['-fsyntax-only', '-w', '-ferror-limit=0', path], capture_output=True, text=True)
        err = re.findall(r'error: (.*)', r.stderr)
        if 'LEV control' not in r.stderr or any('LEV ' not in x for x in err):
            ctx.maybe(R, inst, loc, f'the witness for {t} does not compile: {[x for x in err if "LEV" not in x][:2]}')
            continue
        dup = {int(b) for b in re.findall(r'LEV (\d+)', r.stderr)}
        info = None
        for j, (tr, how) in enumerate(TRAITS):
            if j not in dup:
                ctx.ok(R, inst, loc)
                continue
            if info is None:
                kinds, fields = members(prog, path, base)
                own = {f: (ty, idx, fields[f] == 'raw') for f, (ty, idx) in touched(prog, types[t], fields).items()}
                info = kinds, own
            kinds, own = info
            # a move falls back on the copy when no move member is declared
            k = j if kinds.get(j) or j < 2 else j - 2
            mem = kinds.get(k)
            # containers are left empty by a memberwise move
            ptrs = [f for f, x in own.items() if x[2] or k < 2]
            if not ptrs:
                ctx.ok(R, inst, loc)
            elif mem == 'default':
                ctx.bad(R, inst, loc, f'{t} frees what its pointer{"s" if len(ptrs) > 1 else ""} {", ".join(ptrs[:3])} '
                        f'point{"" if len(ptrs) > 1 else "s"} to, yet it can be {how} memberwise: two objects would free the same memory')
            else:
                try:
                    f = user_member(ctx, path, t, j, own)
                except (Unsupported, NeedFork) as x:
                    f = None
                if f:
                    ctx.bad(R, inst, loc, f'{t} frees what its member {f} refers to; after it was {how} two objects would free the same memory')
                elif f is False:
                    ctx.ok(R, inst, loc)
                else:
                    ctx.maybe(R, inst, loc, f'{t} can be {how} by a user-written member')
    ctx.instances[R] = sorted(types)


def members(prog, path, base):
    """({0: copy ctor, 1: copy assignment, 2: move ctor, 3: move assignment} -> default|user, fields that hold pointers)"""
    r = subprocess.run(['clang++'] + prog.flags() + ['-fsyntax-only', '-w', '-ferror-limit=0', '-Xclang', '-ast-dump', '-Xclang',
                       '-ast-dump-filter=' + base, path], capture_output=True, text=True)
    kinds, ptrs = {}, {}
    cls = base.split('::')[-1]
    for l in r.stdout.splitlines():
        l = re.sub(r'\x1b\[[0-9;]*m', '', l)
        m = re.match(r"^[| ]{0,4}[|`]-FieldDecl .* (\w+) '([^']*)'", l)
        if m and m.group(2).rstrip().endswith('*'):
            ptrs[m.group(1)] = 'raw'
        elif m and re.search(r'\*\s*[,>]', m.group(2)) and not re.search(r'_ptr<|function<', m.group(2)):
            ptrs[m.group(1)] = 'container'
        m = re.match(r"^[| ]{0,4}[|`]-CXX(Constructor|Method)Decl .*? (\w+|operator=) '([^']*)'(.*)", l)
        if m and (m.group(1) == 'Constructor' and m.group(2) == cls or m.group(2) == 'operator='):
            ps = re.search(r'\(([^()]*)\)', m.group(3))
            ps = ps.group(1) if ps else ''
            ctor = m.group(1) == 'Constructor'
            if re.match(r'const ' + cls + r'(<.*>)? &$', ps):
                j = 0 if ctor else 1
            elif re.match(cls + r'(<.*>)? &&$', ps):
                j = 2 if ctor else 3
            else:
                continue
            tail = m.group(4)
            if 'delete' in tail:
                continue
            kinds[j] = 'default' if 'default' in tail else 'user'
    return kinds, ptrs
