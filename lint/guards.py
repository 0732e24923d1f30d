"""Comparisons of a running count with a fixed number.

The driver, the builder and the (de)serialisation code are analysed from their beginning,
so the counts they keep (sizes of containers, counters in objects, loop counters with
another way out) only take small values on the analysed paths.  A comparison of such a
count with a constant splits executions into short and long ones; this module finds those
comparisons by a dataflow pass over one function, and the engine then also follows the
outcome that only a longer history reaches, with everything else unchanged."""
import re

SIZE = re.compile(r'^(?:unsigned \w+ )?std::(?:__cxx11::)?(?:vector|deque|queue|stack|list|set|map|unordered_set|unordered_map|basic_string|'
                  r'multiset|multimap|span|priority_queue)<.*>::(?:size|length)\(\) const|::\w+_size\(\) const$|^liblevenshtein::.*::(?:\w+_)?(?:size|count|length)(?:\[abi:\w+\])?\(\) const$')
MIN = 3


def subject(fn):
    d = fn.dem or ''
    return 'liblevenshtein::' in d and not re.match(r'^(?:[\w: ]+ )?(?:std|__gnu_cxx|google)::', d) and 'liblevenshtein::proto::' not in d.split('(')[0]


def guards(prog, fn):
    """{id(instruction): kind}; kind is 'cmp' (grows past the constant), 'mod' (periodic) or 'wrap' (cut
    down to a narrow type)"""
    g = getattr(fn, '_guards', None)
    if g is not None:
        return g
    fn._guards = g = {}
    if not subject(fn):
        return g
    fn.parse()
    ins = [(b, i) for b in fn.blocks.values() for i in b.ins]
    local, ptrs = {}, set()
    for b, i in ins:
        if i.op == 'alloca':
            local[i.res] = i.a['ty']
    taint, mod, cnt = set(), set(), set()
    consts = {}

    def src(o):
        return o[1] if o[0] == 'reg' else None
    # local counters: stores of  load(x) +/- constant  back to x
    loads = {i.res: i.a['ptr'][1] for b, i in ins if i.op == 'load' and i.a['ptr'][0] == 'reg' and i.a['ptr'][1] in local}
    casts = {i.res: i.a['val'] for b, i in ins if i.op == 'cast' and i.a['op'] in ('zext', 'sext', 'trunc')}

    def base(o):
        while src(o) in casts:
            o = casts[src(o)]
        return o
    stored = {}
    for b, i in ins:
        if i.op == 'store' and i.a['ptr'][0] == 'reg' and i.a['ptr'][1] in local:
            stored.setdefault(i.a['ptr'][1], []).append(i.a['val'])
    # locals that only ever hold one constant
    fixed = {x: vs[0][1] for x, vs in stored.items() if len(vs) == 1 and vs[0][0] == 'int'}

    def const(o):
        if o[0] == 'int':
            return o[1]
        o = base(o)
        return fixed.get(loads.get(src(o)))
    for b, i in ins:
        if i.op == 'bin' and i.a['op'] in ('add', 'sub') and i.a['b'][0] == 'int' and src(base(i.a['a'])) in loads:
            x = loads[src(base(i.a['a']))]
            for v in stored.get(x, ()):
                if base(v) == ('reg', i.res):
                    cnt.add(x)
    while True:
        n = len(taint) + len(mod)
        for b, i in ins:
            if i.op == 'call' and i.res:
                c = i.a['callee']
                if c[0] == 'glb' and SIZE.search(prog.dem(c[1]) if hasattr(prog, 'dem') else ''):
                    taint.add(i.res)
            elif i.op == 'load':
                if i.a['ty'].k == 'int' and i.a['ty'].a >= 8:
                    p = i.a['ptr']
                    if p[0] == 'reg' and p[1] in local:
                        if p[1] in taint or p[1] in cnt:
                            taint.add(i.res)
                        if p[1] in mod:
                            mod.add(i.res)
                    else:
                        taint.add(i.res)
            elif i.op == 'store':
                v, p = src(i.a['val']), i.a['ptr']
                if v and p[0] == 'reg' and p[1] in local:
                    if v in taint:
                        taint.add(p[1])
                    if v in mod:
                        mod.add(p[1])
            elif i.op == 'bin':
                x, y = src(i.a['a']), src(i.a['b'])
                if i.a['op'] in ('add', 'sub', 'mul', 'shl', 'lshr', 'udiv'):
                    if x in taint or y in taint:
                        taint.add(i.res)
                elif i.a['op'] in ('and', 'urem', 'srem') and x in taint and i.a['b'][0] == 'int' and i.a['b'][1] >= 2:
                    mod.add(i.res)
            elif i.op == 'cast' and i.a['op'] in ('zext', 'sext', 'trunc'):
                if src(i.a['val']) in taint:
                    taint.add(i.res)
                if src(i.a['val']) in mod:
                    mod.add(i.res)
            elif i.op in ('phi', 'select'):
                os = [o for o, _ in i.a['inc']] if i.op == 'phi' else [i.a['a'], i.a['b']]
                if any(src(o) in taint for o in os):
                    taint.add(i.res)
        if len(taint) + len(mod) == n:
            break
    for b, i in ins:
        if i.op == 'cast' and i.a['op'] == 'trunc' and 1 < i.a['to'].a <= 16 and src(i.a['val']) in taint:
            x = loads.get(src(base(narrowed(ins, i))))
            if not (x in cnt and bounded(ins, x, loads, base, const)):
                g[id(i)] = ('wrap', 0, 0)
        if i.op == 'call' and len(i.a['args']) == 2 and i.a['callee'][0] == 'glb' and \
                re.match(r'^\S* ?(?:const& )?std::min<(?:unsigned )?(?:long|int)>\(', prog.dem(i.a['callee'][1])):
            os = [o for _, o, _ in i.a['args']]
            for k in (0, 1):
                x, y = src(os[k]), src(os[1 - k])
                if fixed.get(y, 0) >= MIN and x not in fixed and (x not in local or x in taint):
                    g[id(i)] = ('min', fixed[y], k)
        if i.op != 'icmp' or i.a['ty'].k != 'int' or i.a['ty'].a < 16:
            continue
        for x, y in ((i.a['a'], i.a['b']), (i.a['b'], i.a['a'])):
            y = ('int', const(y)) if src(x) is not None else ('none',)
            if y[0] != 'int' or y[1] is None or const(x) is not None:
                continue
            if src(x) in mod:
                g[id(i)] = ('mod', 0, 0)
            elif src(x) in taint and y[1] >= MIN:
                l = loads.get(src(x))
                if l in cnt and not other_exit(fn, b, i):
                    continue
                g[id(i)] = ('cmp', y[1], 0 if x is i.a['a'] else 1)
    return g


def narrowed(ins, i):
    """what a counter's new value was computed from"""
    o = i.a['val']
    for b, j in ins:
        if j.op == 'bin' and ('reg', j.res) == o:
            return j.a['a']
    return o


def bounded(ins, x, loads, base, const):
    """the counter is compared with a constant"""
    for b, j in ins:
        if j.op == 'icmp':
            for u, v in ((j.a['a'], j.a['b']), (j.a['b'], j.a['a'])):
                u = base(u)
                if u[0] == 'reg' and loads.get(u[1]) == x and const(v) is not None:
                    return True
    return False


def other_exit(fn, b, i):
    """the loop around this comparison can also be left elsewhere, and not on account of a constant"""
    name = b.name
    hs = [h for h, body in fn.loops.items() if name in body]
    if not hs:
        return True
    h = min(hs, key=lambda h: len(fn.loops[h]))
    body = fn.loops[h]
    for n in body:
        if n == name:
            continue
        if any(s not in body for s in fn.blocks[n].succ):
            return True
    return False


FLIP = {'lt', 'le', 'gt', 'ge', 'eq', 'ne'}


def beyond(pred, side):
    """truth of the comparison once the count is far beyond the constant"""
    k = pred[1:] if pred not in ('eq', 'ne') else pred
    if k == 'eq':
        return None
    if k == 'ne':
        return None
    up = k in ('gt', 'ge')
    return up if side == 0 else not up
