"""Rules on the dictionary: nodes, membership, enumeration, construction, destruction,
equality and hashing."""
import itertools
from common import *
from lists import *
from rules_pt import sat_quick
from rules_tr import prove, bool_states, purity
from irparse import int_ty, PTR

LIM = 1 << 60
CB = re.compile(r'^std::function<void \(char, liblevenshtein::DawgNode\*\)>::operator\(\)')


def acc(ctx):
    if 'dacc' not in ctx.cache:
        ctx.cache['dacc'] = dict(
            each=ctx.method('DawgNode', 'for_each_edge'), tr=ctx.method('DawgNode', 'transition', 'char'),
            fin=ctx.method('DawgNode', 'is_final', ''), setfin=ctx.method('DawgNode', 'is_final', 'bool'),
            add=ctx.method('DawgNode', 'add_edge'),
            ctor=ctx.method('DawgNode', 'DawgNode', 'bool'))
    return ctx.cache['dacc']


def guard(R, inst, ctx, f):
    try:
        f()
    except (Unsupported, NeedFork) as u:
        ctx.maybe(R, inst, '', f'outside the analysed fragment: {u}')


def h_record(e, st, ins, dem, a):
    st.ev.append(('edge', e.lin(st, a[1]), st.norm(a[2]), e.where(st, ins)))
    return None


def new_node(ctx, e, st, name, final=None):
    """a node made by the constructor; (state, ptr)"""
    o = f'{name}'
    st.objs[o] = ('heap', name, o)
    if final is None:
        f = e.symbol(st, ('fin', name), int_ty(8))
        c = ('cmp', 'ne', f)
        val = B(('atom', ('final', name)))
    else:
        val = final
    st = one(e, st, acc(ctx)['ctor'], [Ptr(o, 0), val])
    return st, Ptr(o, 0)


def edge_label(e, st, name, j):
    """the j-th label of a node: labels ascend"""
    l = e.symbol(st, ('lab', name, j), int_ty(8))
    st.poly = st.poly.add('ge', l + 128).add('ge', K(127) - l)
    return l


def one_plus(e, st, fn, args):
    outs = call1(e, st, fn, args)
    if not outs:
        raise Unsupported('no outcome')
    return outs


def node_with(ctx, e, k):
    """[(state, node, [(label, target)])]: a node with k edges added one after another"""
    st = State()
    st, nd = new_node(ctx, e, st, 'node')
    es = []
    for j in range(k):
        l = edge_label(e, st, 'node', j)
        for q, _ in es:
            st.poly = st.poly.add('ne', l - q)
        t = f'target{j}'
        st.objs[t] = ('heap', t, t)
        es.append((l, Ptr(t, 0)))
    states = [st]
    for l, t in es:
        states = [o for s in states for o in call1(e, s, acc(ctx)['add'], [nd, l, t])]
    return [(s, nd, es) for s in states]


def edges_now(ctx, e, st, nd):
    """edges the node enumerates, as [(state, [(label, target, where)])]"""
    out = []
    saved = e.hooks
    e.hooks = list(saved) + [(CB, h_record)]
    try:
        outs = call1(e, st, acc(ctx)['each'], [nd, sym_obj(st, 'fn')])
    finally:
        e.hooks = saved
    for o in outs:
        out.append((o, [(ev[1], ev[2], ev[3]) for ev in o.ev[len(st.ev):] if ev[0] == 'edge']))
    return out


def same_edges(st, got, want):
    got = list(got)
    if len(got) != len(want):
        return False
    for l, t in want:
        hit = [g for g in got if g[1] == t and st.poly.entails('eq', g[0] - l)]
        if len(hit) != 1:
            return False
        got.remove(hit[0])
    return True


def check_node(ctx):
    """a node is a map from labels to targets plus a flag"""
    R, inst = 'R.node', 'DawgNode'
    A = acc(ctx)
    cnt = [0]

    def run(k):
        e = ctx.engine(max_states=20000)
        e.peel = k + 3
        for st, nd, es in node_with(ctx, e, k):
            st.ev = []
            cnt[0] += 1
            for t in es:
                ctx.judge(R + '.add', inst, t[1].obj not in st.freed, st, ctx.locof(A['add']), 'adding an edge frees a target that is still linked')
            for o, got in edges_now(ctx, e, st, nd):
                ctx.judge(R + '.each', inst, same_edges(o, got, es), o, ctx.locof(A['each']), 'enumerating the edges of a node does not yield each one once')
                purity(ctx, R, inst, o, ['node'])
                w = [ev for ev in o.ev if ev[0] == 'write' and ev[1] == 'node']
                ctx.judge(R + '.effects', inst, not w, o, ctx.locof(A['each']), 'enumerating the edges modifies the node')
            x = edge_label(e, st, 'x', 0)
            for o in call1(e, st, A['tr'], [nd, x]):
                cnt[0] += 1
                r = o.norm(o.ret)
                cands = [(l, t) for l, t in es if t == r]
                loc = ctx.locof(A['tr'])
                if r.obj is None:
                    for l, t in es:
                        prove(ctx, o, R + '.follow', inst, loc, [[('eq', l - x)]], 'an existing edge is not found')
                else:
                    ctx.judge(R + '.follow', inst, bool(cands) and o.poly.entails('eq', cands[0][0] - x), o, loc,
                              'a label leads to another edge\'s target')
                w = [ev for ev in o.ev if ev[0] in ('write', 'free') and ev[1] == 'node']
                ctx.judge(R + '.effects', inst, not w, o, loc, 'following an edge modifies the node')
                memsafety(ctx, R, inst, o)
            # the flag
            for v in (TRUE, FALSE):
                for o in call1(e, st, A['setfin'], [nd, v]):
                    for o2 in call1(e, o, A['fin'], [nd]):
                        for o3, b in bool_states(e, o2, o2.ret):
                            ctx.judge(R + '.final', inst, b == (v is TRUE), o3, ctx.locof(A['setfin']), 'the final flag is not kept')
                    for o2, got in edges_now(ctx, e, o, nd):
                        ctx.judge(R + '.final', inst, same_edges(o2, got, es), o2, ctx.locof(A['setfin']), 'setting the flag changes the edges')
            for o in call1(e, st, A['fin'], [nd]):
                c = o.eval(e.cond(o, o.ret))
                for o2, b in bool_states(e, o, o.ret):
                    want = o2.eval(('atom', ('final', 'node')))
                    ctx.judge(R + '.final', inst, want is not None and b == want, o2, ctx.locof(A['fin']), 'the final flag of a new node is not the one given')
            # replacing / re-adding an edge
            if k:
                for tgt in (es[0][1], None):
                    s = st.copy()
                    if tgt is None:
                        s.objs['other'] = ('heap', 'other', 'other')
                        t = Ptr('other', 0)
                    else:
                        t = tgt
                    for o in call1(e, s, A['add'], [nd, es[0][0], t]):
                        memsafety(ctx, R, inst, o)
                        ctx.judge(R + '.add', inst, t.obj not in o.freed and all(x.obj not in o.freed for _, x in es[1:]), o, ctx.locof(A['add']),
                                  'adding an edge frees a node that stays linked')
                        for o2, got in edges_now(ctx, e, o, nd):
                            ctx.judge(R + '.add', inst, same_edges(o2, got, [(es[0][0], t)] + es[1:]), o2, ctx.locof(A['add']),
                                      're-adding an edge does not replace just that edge')
        dead_check(ctx, e, R, inst)
        ctx.account(e)
    guard(R, inst, ctx, lambda: [run(k) for k in range(0, 4)])
    ctx.instances[R] = cnt[0]


# ------------------------------------------------------------------ graphs
class Graph:
    """a small dictionary graph given as {node: [targets]}, labels symbolic; DawgNode's
    accessors are answered from it"""

    def __init__(self, ctx, edges, finals=None):
        self.ctx, self.edges, self.finals = ctx, edges, finals

    def hooks(self):
        return [(re.compile(r'^liblevenshtein::DawgNode::for_each_edge\('), self.h_each),
                (re.compile(r'^liblevenshtein::DawgNode::is_final\(\) const'), self.h_final),
                (re.compile(r'^liblevenshtein::DawgNode::transition\('), self.h_tr),
                (re.compile(r'^liblevenshtein::DawgNode::~DawgNode\('), self.h_dtor)]

    def place(self, st):
        for n in self.edges:
            st.objs[n] = ('heap', n, n)
        return st

    def lab(self, e, st, n, j):
        l = e.symbol(st, ('lab', n, j), int_ty(8))
        return l

    def label_facts(self, e, st):
        for n, ts in self.edges.items():
            for j in range(len(ts)):
                l = self.lab(e, st, n, j)
                st.poly = st.poly.add('ge', l + 128).add('ge', K(127) - l)
                if j:
                    st.poly = st.poly.add('ge', l - self.lab(e, st, n, j - 1) - 1)

    def h_each(self, e, st, ins, dem, a):
        n = st.norm(a[0]).obj
        if n not in self.edges:
            return NotImplemented
        if n in st.freed:
            st.ev.append(('uaf', n, e.where(st, ins)))
        st.ev.append(('foreach', n, e.where(st, ins)))
        fns = self.ctx.prog.find(CB.pattern)
        cur = [st]
        for j, t in enumerate(self.edges[n]):
            nxt = []
            for s in cur:
                for o in e.call_fn(s, fns[0], [a[1], self.lab(e, s, n, j), Ptr(t, 0)]):
                    o.user.pop('_pend', None)
                    nxt.append(o)
            cur = nxt
        for o in cur:
            e.setres(o, ins, None)
        return cur

    def h_final(self, e, st, ins, dem, a):
        n = st.norm(a[0]).obj
        if n not in self.edges:
            return NotImplemented
        if n in st.freed:
            st.ev.append(('uaf', n, e.where(st, ins)))
        if self.finals is not None:
            return TRUE if n in self.finals else FALSE
        return B(('atom', ('final', n)))

    def h_tr(self, e, st, ins, dem, a):
        n = st.norm(a[0]).obj
        if n not in self.edges:
            return NotImplemented
        x = e.sgn(st, e.lin(st, a[1]), 8)
        for j, t in enumerate(self.edges[n]):
            if st.decide(('cmp', 'eq', x - self.lab(e, st, n, j))):
                return Ptr(t, 0)
        return NULL

    def h_dtor(self, e, st, ins, dem, a):
        n = st.norm(a[0]).obj
        if n not in self.edges:
            return NotImplemented
        if n in st.freed:
            st.ev.append(('doublefree', n, e.where(st, ins)))
        return None


SHAPES = [
    {'root': []},
    {'root': ['a'], 'a': []},
    {'root': ['a', 'b'], 'a': [], 'b': []},
    {'root': ['a', 'a'], 'a': []},
    {'root': ['a'], 'a': ['b'], 'b': []},
    {'root': ['a', 'b'], 'a': ['b'], 'b': []},
    {'root': ['a', 'b'], 'a': ['c'], 'b': ['c'], 'c': []},
]


def dawg_obj(ctx, e, st, root, size):
    """a SortedDawg made by its (root, size) constructor"""
    fs = [f for d, l in ctx.prog.by_dem.items() for f in l if skel(d)[0] in (NS + 'Dawg::Dawg',) and 'DawgNode' in skel(d)[2]]
    if not fs:
        raise AnchorLost('Dawg::Dawg(root, size)')
    return fs[0]


def sorted_ctor(ctx, with_root):
    """SortedDawg constructor (inherited): with root and size, or default"""
    for d, l in ctx.prog.by_dem.items():
        p, t, ps = skel(d)
        if p == NS + 'SortedDawg::SortedDawg' or (p == NS + 'SortedDawg::Dawg'):
            if ('DawgNode' in ps) == with_root:
                return l[0]
    return None


def make_dawg(ctx, e, st, root, size, kind='heap'):
    o = 'dawg'
    st.objs[o] = (kind, 'dawg', o)
    f = sorted_ctor(ctx, True)
    if f is None:
        raise Unsupported('SortedDawg(root, size)')
    return one(e, st, f, [Ptr(o, 0), root, size]), Ptr(o, 0)


def check_contains(ctx, kmax=3):
    """membership follows the term's characters from the root and tests the flag"""
    R, inst = 'R.contains', 'Dawg::contains'
    fn = ctx.method('Dawg', 'contains')
    loc = ctx.locof(fn)
    cnt = [0]

    def h_tr(e, st, ins, dem, a):
        n = st.norm(a[0])
        x = e.sgn(st, e.lin(st, a[1]), 8)
        k = len([ev for ev in st.ev if ev[0] == 'tr'])
        if st.decide(('atom', ('has', n.obj, k))):
            t = f'n{k + 1}'
            st.objs[t] = ('heap', t, t)
            r = Ptr(t, 0)
        else:
            r = NULL
        st.ev.append(('tr', n, x, r, e.where(st, ins)))
        return r

    def h_fin(e, st, ins, dem, a):
        n = st.norm(a[0])
        return B(('atom', ('final', n.obj)))

    def run(k):
        e = ctx.engine(hooks=[(re.compile(r'^liblevenshtein::DawgNode::transition\('), h_tr),
                              (re.compile(r'^liblevenshtein::DawgNode::is_final\(\) const'), h_fin)])
        e.peel = k + 2
        st = State()
        st.objs['n0'] = ('heap', 'n0', 'n0')
        size = e.symbol(st, 'size', int_ty(64))
        st, dg = make_dawg(ctx, e, st, Ptr('n0', 0), size)
        tc = st.new_obj('alloca', 'term')
        chars = []
        for i in range(k):
            c = e.symbol(st, ('c', i), int_ty(8))
            st.poly = st.poly.add('ge', c + 128).add('ge', K(127) - c)
            chars.append(c)
        st.models[(tc, 0)] = Str([('chr', c) for c in chars])
        st.ev = []
        for o in call1(e, st, fn, [dg, Ptr(tc, 0)]):
            cnt[0] += 1
            if not memsafety(ctx, R, inst, o):
                continue
            trs = [ev for ev in o.ev if ev[0] == 'tr']
            good = True
            cur = Ptr('n0', 0)
            for i, ev in enumerate(trs):
                good = good and i < k and ev[1] == cur and o.poly.entails('eq', ev[2] - chars[i])
                cur = ev[3]
            if not ctx.judge(R, inst, good, o, loc, 'membership does not follow the characters of the term from the root'):
                continue
            for o2, b in bool_states(e, o, o.ret):
                full = len(trs) == k and cur.obj is not None
                if full:
                    f = o2.eval(('atom', ('final', cur.obj)))
                    ctx.judge(R, inst, f is b or f == b, o2, loc, 'membership is not decided by the final flag of the last node')
                elif cur.obj is None:
                    ctx.judge(R, inst, not b, o2, loc, 'a term without a path is reported as contained')
                else:
                    ctx.judge(R, inst, False, o2, loc, 'membership is decided before all characters were followed')
            w = foreign(o)
            ctx.judge(R + '.effects', inst, not w, o, loc, 'a membership test modifies the dictionary')
        dead_check(ctx, e, R, inst)
        ctx.account(e)
    guard(R, inst, ctx, lambda: [run(k) for k in range(kmax + 1)])
    ctx.instances[R] = cnt[0]


def check_basic(ctx):
    """root() and size() are the ones given; an empty dictionary has a plain root"""
    R, inst = 'R.dawg', 'Dawg'

    def run():
        e = ctx.engine()
        st = State()
        st.objs['root'] = ('heap', 'root', 'root')
        size = e.symbol(st, 'size', int_ty(64))
        st, dg = make_dawg(ctx, e, st, Ptr('root', 0), size)
        o = one(e, st, ctx.method('Dawg', 'root'), [dg])
        ctx.judge(R, inst, o.norm(o.ret) == Ptr('root', 0), o, ctx.locof(ctx.method('Dawg', 'root')), 'root() is not the root given')
        o = one(e, st, ctx.method('Dawg', 'size'), [dg])
        ctx.judge(R, inst, o.poly.entails('eq', e.lin(o, o.ret) - size), o, ctx.locof(ctx.method('Dawg', 'size')), 'size() is not the size given')
        f = sorted_ctor(ctx, False)
        if f is not None:
            st = State()
            st.objs['dawg'] = ('heap', 'dawg', 'dawg')
            st = one(e, st, f, [Ptr('dawg', 0)])
            o = one(e, st, ctx.method('Dawg', 'size'), [Ptr('dawg', 0)])
            ctx.judge(R, inst, o.poly.entails('eq', e.lin(o, o.ret)), o, ctx.locof(f), 'a new dictionary is not empty')
            o = one(e, st, ctx.method('Dawg', 'root'), [Ptr('dawg', 0)])
            r = o.norm(o.ret)
            ok = r.obj is not None and o.meta(r.obj)[0] == 'heap'
            if ctx.judge(R, inst, ok, o, ctx.locof(f), 'a new dictionary has no root'):
                o2 = one(e, o, acc(ctx)['fin'], [r])
                ctx.judge(R, inst, o2.eval(e.cond(o2, o2.ret)) is False, o2, ctx.locof(f), 'the root of a new dictionary is final')
        ctx.account(e)
        ctx.instances[R] = 4
    guard(R, inst, ctx, run)


def reach(edges, r='root'):
    seen, todo = [], [r]
    while todo:
        n = todo.pop()
        if n not in seen:
            seen.append(n)
            todo += edges[n]
    return set(seen)


def check_destroy(ctx):
    """destroying a dictionary frees each node once, and leftovers of its construction"""
    R, inst = 'R.destroy', 'SortedDawg::~SortedDawg'
    fn = ctx.method('SortedDawg', '~SortedDawg')
    loc = ctx.locof(fn)
    cnt = [0]

    def run(edges, floating):
        g = Graph(ctx, edges)
        e = ctx.engine(max_states=20000, hooks=g.hooks())
        e.peel = 12
        st = State()
        g.place(st)
        g.label_facts(e, st)
        for f in floating:
            st.objs.setdefault(f, ('heap', f, f))
        st, dg = make_dawg(ctx, e, st, Ptr('root', 0), e.symbol(st, 'size', int_ty(64)))
        if floating is not None and floating != ():
            fi = ctx.method('SortedDawg', 'init')
            st = one(e, st, fi, [dg])
            # the set that init() made for nodes
            cells = [k for k, v in st.models.items() if isinstance(v, Coll) and 'DawgNode' in v.kt and v.kt.strip().endswith('*') and v.vt is None]
            if len(cells) != 1:
                raise Unsupported('pool of nodes under construction')
            c = st.models[cells[0]]
            ins = []
            for f in floating:
                el = st.new_obj('elem', 'mel')
                st.mem[(el, 0)] = Ptr(f, 0)
                ins.append((Ptr(f, 0), el))
            st.models[cells[0]] = c.with_(ins=tuple(ins))
        own = {ev[1] for ev in st.ev if ev[0] == 'new'}
        st.ev = []
        for o in call1(e, st, fn, [dg]):
            cnt[0] += 1
            if not memsafety(ctx, R, inst, o):
                continue
            want = reach(edges) | set(floating or ()) | own
            lost = [x for x in want if x not in o.freed]
            ctx.judge(R + '.leak', inst, not lost, o, loc, f'destroying a dictionary does not free {lost}', dict(shape=str(edges)))
            extra = [x for x in o.freed if x not in want and o.meta(x)[0] != 'alloca' and not str(x).startswith(('el#', 'mel#'))]
        dead_check(ctx, e, R, inst)
        ctx.account(e)

    def allruns():
        for s in SHAPES:
            run(s, ())
        # during construction: nodes linked and not linked yet
        run({'root': []}, ('x',))
        run({'root': ['a'], 'a': []}, ('a', 'x'))
        run({'root': ['a', 'a'], 'a': []}, ('a', 'x', 'y'))
        run({'root': ['a'], 'a': ['b'], 'b': []}, ('b', 'a', 'x'))
    guard(R, inst, ctx, allruns)
    ctx.instances[R] = cnt[0]


# ------------------------------------------------------------------ enumeration
def paths_to(edges, finals):
    """all (list of (node, index)) paths from the root to final nodes"""
    out = []

    def go(n, p):
        if n in finals:
            out.append(tuple(p))
        for j, t in enumerate(edges[n]):
            go(t, p + [(n, j)])
    go('root', [])
    return out


def final_sets(edges):
    inner = [n for n in edges if edges[n] or n == 'root']
    leaves = [n for n in edges if not edges[n] and n != 'root']
    for r in range(len(inner) + 1):
        for c in itertools.combinations(inner, r):
            yield set(c) | set(leaves)


def check_iter(ctx):
    """iteration yields every term once and ends after size() terms"""
    R, inst = 'R.iter', 'DawgIterator'
    f_begin, f_end = ctx.method('Dawg', 'begin'), ctx.method('Dawg', 'end')
    f_inc, f_get = ctx.method('DawgIterator', 'operator++'), ctx.method('DawgIterator', 'operator*[abi:cxx11]')
    f_eq, f_dtor = ctx.method('DawgIterator', 'operator=='), ctx.method('DawgIterator', '~DawgIterator')
    loc = ctx.locof(f_inc)
    cnt = [0]

    def run(edges, finals):
        g = Graph(ctx, edges, finals)
        e = ctx.engine(max_states=20000, hooks=g.hooks())
        e.peel = 14
        e.rec_limit = 8
        st = State()
        g.place(st)
        g.label_facts(e, st)
        want = paths_to(edges, finals)
        st, dg = make_dawg(ctx, e, st, Ptr('root', 0), K(len(want)))
        st.ev = []
        it, end = st.new_obj('alloca', 'it'), st.new_obj('alloca', 'end')
        states = [(o, []) for s in call1(e, st, f_begin, [Ptr(it, 0), dg]) for o in call1(e, s, f_end, [Ptr(end, 0), dg])]
        for m in range(len(want) + 1):
            nxt = []
            for s, texts in states:
                cnt[0] += 1
                if not memsafety(ctx, R, inst, s):
                    continue
                for o in call1(e, s, f_eq, [Ptr(it, 0), Ptr(end, 0)]):
                    for o2, b in bool_states(e, o, o.ret):
                        ctx.judge(R, inst, b == (m == len(want)), o2, ctx.locof(f_eq),
                                  'iteration ends before all terms were yielded' if b else 'iteration does not end after the last term', dict(shape=str(edges), finals=str(finals)))
                # the iterator may be dropped here
                for o in call1(e, s, f_dtor, [Ptr(it, 0)]):
                    if memsafety(ctx, R, inst, o):
                        lost = [ev[1] for ev in o.ev if ev[0] == 'new' and ev[1] not in o.freed]
                        ctx.judge(R + '.leak', inst, not lost, o, ctx.locof(f_dtor), 'an iterator does not free what it allocated')
                        ctx.judge(R + '.memory', inst, not any(n in o.freed for n in edges), o, ctx.locof(f_dtor), 'an iterator frees nodes of the dictionary')
                if m == len(want):
                    texts_ok(ctx, R, inst, g, e, s, texts, want, loc)
                    continue
                res = s.new_obj('alloca', 'text')
                for o in call1(e, s, f_get, [Ptr(res, 0), Ptr(it, 0)]):
                    v = o.models.get((res, 0))
                    if not isinstance(v, Str):
                        raise Unsupported('text not resolved')
                    for o2 in call1(e, o, f_inc, [Ptr(it, 0)]):
                        nxt.append((o2, texts + [v]))
            states = nxt
        dead_check(ctx, e, R, inst)
        ctx.account(e)
    guard(R, inst, ctx, lambda: [run(s, f) for s in SHAPES for f in final_sets(s)])
    ctx.instances[R] = cnt[0]


def texts_ok(ctx, R, inst, g, e, s, texts, want, loc):
    left = list(texts)
    for p in want:
        w = Str([('chr', g.lab(e, s, n, j)) for n, j in p])
        hit = next((t for t in left if t == w), None)
        if hit is None:
            ctx.judge(R, inst, False, s, loc, 'a term is skipped by iteration, or yielded with the wrong text',
                      dict(missing=str(w), got=str(texts)))
            return
        left.remove(hit)
    w = [ev for ev in s.ev if ev[0] == 'write' and ev[1] in g.edges or ev[0] == 'gwrite']
    ctx.judge(R + '.effects', inst, not w, s, loc, 'iteration modifies the dictionary')
    ctx.judge(R, inst, not left, s, loc, 'iteration yields a term twice')


# ------------------------------------------------------------------ construction
def language(ctx, e, st, root, depth=8):
    """[(state, [(labels, ...)] of final paths, nodes)] read off the node accessors"""
    A = acc(ctx)
    out = []
    nodes = []

    def go(s, n, path, k):
        """[(state, [paths])]"""
        if k > depth:
            raise Unsupported('the dictionary graph does not end')
        if n not in nodes:
            nodes.append(n)
        res = []
        if n.obj in s.freed:
            ctx_bad.append((s, n))
            return []
        for o in call1(e, s, A['fin'], [n]):
            for o2, b in bool_states(e, o, o.ret):
                base = [tuple(path)] if b else []
                for o3, es in edges_now(ctx, e, o2, n):
                    cur = [(o3, base)]
                    for l, t, w in es:
                        cur = [(y, ps + qs) for x, ps in cur for y, qs in go(x, t, path + [l], k + 1)]
                    res += cur
        return res
    ctx_bad = []
    r = go(st, root, [], 0)
    return r, nodes, ctx_bad


def terms_of(e, st, lens):
    ts = []
    for i, k in enumerate(lens):
        cs = []
        for j in range(k):
            c = e.symbol(st, ('t', i, j), int_ty(8))
            st.poly = st.poly.add('ge', c + 128).add('ge', K(127) - c)
            cs.append(c)
        ts.append(cs)
    return ts


def order(e, st, a, b):
    """[(state, -1|0|1)] comparing two spelled terms bytewise"""
    work, out = [st.copy()], []
    while work:
        s = work.pop()
        try:
            c = e.models.strcmp(s, Str([('chr', x) for x in a]), Str([('chr', x) for x in b]))
            out.append((s, c.c))
        except NeedFork as nf:
            t = s.copy()
            if s.assume(nf.cond):
                work.append(s)
            if t._assume_neg(nf.cond):
                work.append(t)
    return out


def nodekeys(ctx, e):
    """abstract equality of dictionary nodes used as keys: structural"""
    A = acc(ctx)

    def eq(st, a, b, depth=0):
        if a == b:
            return True
        if depth > 6:
            raise Unsupported('depth of nodes')
        fa, fb = one(e, st, A['fin'], [a]), one(e, st, A['fin'], [b])
        ca, cb = e.cond(fa, fa.ret), e.cond(fb, fb.ret)
        if st.decide(ca) != st.decide(cb):
            return False
        ma, mb = coll_of(st, a), coll_of(st, b)
        if len(ma.ins) != len(mb.ins):
            return False
        off = e.models.second_off(ma.kt, ma.vt)
        for k, o in ma.ins:
            hit = None
            for k2, o2 in mb.ins:
                if st.decide(e.models.key_eq(k, k2)):
                    hit = o2
                    break
            if hit is None:
                return False
            if not eq(st, st.norm(st.mem[(o, off)]), st.norm(st.mem[(hit, off)]), depth + 1):
                return False
        return True

    def coll_of(st, p):
        cs = [v for (o, off), v in st.models.items() if o == p.obj and isinstance(v, Coll)]
        if len(cs) != 1 or cs[0].base is not None:
            raise Unsupported('edges of a node')
        return cs[0]
    return eq


KINDS = {'vector': 'normal_iterator', 'list': '_List_iterator', 'set': '_Rb_tree'}


def build_run(ctx, lens, kind='vector'):
    """analyse sorted_dawg over a range of len(lens) terms of the given lengths"""
    its = [f for f in ctx.prog.find(r'liblevenshtein::SortedDawg\* liblevenshtein::sorted_dawg<')]
    fs = [f for f in its if KINDS[kind] in f.dem]
    if not fs:
        raise AnchorLost(f'sorted_dawg over a {kind}')
    e = ctx.engine(max_states=200000)
    e.peel = 8
    e.rec_limit = 8
    e.models.nodeq = nodekeys(ctx, e)
    st = State()
    ts = terms_of(e, st, lens)
    els = []
    for i, cs in enumerate(ts):
        o = st.new_obj('elem', 'el')
        st.models[(o, 0)] = Str([('chr', c) for c in cs])
        els.append(o)
    key = (st.new_obj('alloca', 'terms'), 0)
    st.models[key] = Seq(None, K(0), items=tuple(els), et='std::__cxx11::basic_string<char>')
    outs = call1(e, st, fs[0], [Op('it', key, K(0)), Op('it', key, K(len(lens)))])
    return fs[0], e, ts, outs


BUILDS = {
    'kinds': [(), (1,), (1, 1), (0, 1), (1, 1, 1)],
    'short': [(), (0,), (1,), (2,), (0, 1), (1, 0), (1, 1), (0, 0), (2, 1), (1, 2), (0, 1, 1)],
    'pairs': [(2, 2), (3, 2), (2, 3), (1, 1, 1), (3,), (4,)],
    'equal': [(3, 3)],
    'triple': [(2, 1, 2), (1, 2, 2)],
    'deep': [(4, 4)], 'deep3': [(2, 2, 2)], 'deep4': [(1, 1, 1, 1)], 'deep5': [(1, 2, 1, 2)], 'deep6': [(3, 3, 1)],
}


def check_build(ctx, configs=None, kind='vector'):
    """a dictionary is built from sorted terms only, and holds exactly them"""
    R, inst = 'R.build', f'sorted_dawg over a {kind}'
    if not isinstance(configs, (list, tuple)):
        configs = BUILDS[configs or 'short']
    cnt = [0]

    def run(lens):
        fn, e, ts, outs = build_run(ctx, lens, kind)
        loc = ctx.locof(fn)
        f_size, f_root = ctx.method('Dawg', 'size'), ctx.method('Dawg', 'root')
        f_dtor = ctx.method('SortedDawg', '~SortedDawg')
        for o in outs:
            cnt[0] += 1
            if not memsafety(ctx, R, inst, o):
                continue
            r = o.norm(o.ret)
            work = [(o, 0)]
            # is the input sorted on this path?
            cases = [(o, True, 1 if ts else 0)]
            for i in range(1, len(ts)):
                nxt = []
                for s, srt, d in cases:
                    if not srt:
                        nxt.append((s, srt, d))
                        continue
                    for s2, c in order(e, s, ts[i - 1], ts[i]):
                        nxt.append((s2, c <= 0, d + (c != 0)))
                cases = nxt
            for s, srt, distinct_ in cases:
                if not srt:
                    ctx.judge(R + '.sorted', inst, r.obj is None, s, loc, 'terms that are not sorted are accepted')
                    continue
                if not ctx.judge(R + '.sorted', inst, r.obj is not None, s, loc, 'sorted terms are refused'):
                    continue
                q = one(e, s, f_size, [r])
                ctx.judge(R + '.size', inst, q.poly.entails('eq', e.lin(q, q.ret) - distinct_), q, loc,
                          f'the size is {e.lin(q, q.ret)}, not the number of distinct terms, {distinct_}', dict(lengths=str(lens)))
                q = one(e, s, f_root, [r])
                lang, nodes, bad = language(ctx, e, q, q.norm(q.ret))
                minimal(ctx, e, R, inst, loc, q, nodes, lens)
                for s2, n in bad:
                    ctx.judge(R + '.memory', inst, False, s2, loc, 'a freed node stays in the dictionary', dict(lengths=str(lens)))
                for s2, ps in lang:
                    lang_ok(ctx, e, R, inst, loc, s2, ps, ts, distinct_, lens)
            if r.obj is not None:
                frozen(ctx, e, R, inst, o, r)
            # everything allocated is freed once
            if r.obj is None:
                lost = [ev[1] for ev in o.ev if ev[0] == 'new' and ev[1] not in o.freed]
                ctx.judge(R + '.leak', inst, not lost, o, loc, 'a refused construction leaks memory', dict(lengths=str(lens)))
            else:
                for d in call1(e, o, f_dtor, [r]):
                    if memsafety(ctx, R, inst, d):
                        lost = [ev[1] for ev in d.ev if ev[0] == 'new' and ev[1] not in d.freed and ev[1] != r.obj]
                        ctx.judge(R + '.leak', inst, not lost, d, loc, 'a destroyed dictionary leaks memory', dict(lengths=str(lens), lost=str(lost)))
        dead_check(ctx, e, R, inst)
        ctx.account(e)
    guard(R, inst, ctx, lambda: [run(c) for c in configs])
    ctx.instances[f'{R}[{kind},{configs}]'] = cnt[0]


def minimal(ctx, e, R, inst, loc, s, nodes, lens):
    """no two nodes of a finished dictionary continue with the same suffixes"""
    for a, b in itertools.combinations(nodes, 2):
        work = [s.copy()]
        while work:
            x = work.pop()
            if a.obj in x.freed or b.obj in x.freed:
                continue
            try:
                eq = e.models.nodeq(x, a, b)
                ctx.judge(R + '.minimal', inst, not eq, x, loc, 'two nodes that continue with the same suffixes are not merged', dict(lengths=str(lens)))
            except NeedFork as nf:
                y = x.copy()
                if x.assume(nf.cond):
                    work.append(x)
                if y._assume_neg(nf.cond):
                    work.append(y)


def check_manual(ctx, lens):
    """terms added one by one: accepted exactly when not below the last accepted one,
    a refused one changes nothing, and the dictionary can be destroyed at any point"""
    R, inst = 'R.manual', 'SortedDawg'
    f_init, f_add = ctx.method('SortedDawg', 'init'), ctx.method('SortedDawg', 'add')
    f_fin, f_clean = ctx.method('SortedDawg', 'finish'), ctx.method('SortedDawg', 'clean_up')
    f_dtor, f_new = ctx.method('SortedDawg', '~SortedDawg'), sorted_ctor(ctx, False)
    if f_new is None:
        raise AnchorLost('SortedDawg()')
    loc = ctx.locof(f_add)
    cnt = [0]

    def destroyed(e, s, what, skip='dawg'):
        for d in call1(e, s.copy(), f_dtor, [Ptr('dawg', 0)]):
            if memsafety(ctx, R, inst, d):
                lost = [ev[1] for ev in d.ev if ev[0] == 'new' and ev[1] not in d.freed and ev[1] != skip]
                ctx.judge(R + '.leak', inst, not lost, d, ctx.locof(f_dtor), f'a dictionary destroyed {what} leaks memory', dict(lengths=str(lens), lost=str(lost)))

    def run():
        e = ctx.engine(max_states=200000)
        e.peel = 8
        e.rec_limit = 8
        e.models.nodeq = nodekeys(ctx, e)
        st = State()
        ts = terms_of(e, st, lens)
        st.objs['dawg'] = ('heap', 'dawg', 'dawg')
        dg = Ptr('dawg', 0)
        st = one(e, st, f_new, [dg])
        destroyed(e, st, 'before it is initialised')
        states = [(o, []) for o in call1(e, st, f_init, [dg])]
        for i, cs in enumerate(ts):
            nxt = []
            for s, okd in states:
                tc = s.new_obj('alloca', f'term{i}')
                s.models[(tc, 0)] = Str([('chr', c) for c in cs])
                for o in call1(e, s, f_add, [dg, Ptr(tc, 0)]):
                    cnt[0] += 1
                    # the caller's term may go away
                    o.models.pop((tc, 0), None)
                    if not memsafety(ctx, R, inst, o):
                        continue
                    for o2, b in bool_states(e, o, o.ret):
                        cases = order(e, o2, ts[okd[-1]], cs) if okd else [(o2, -1)]
                        for o3, c in cases:
                            if not ctx.judge(R + '.sorted', inst, b == (c <= 0), o3, loc,
                                             'a term below the last one is accepted' if b else 'a term that is in order is refused', dict(lengths=str(lens))):
                                continue
                            nxt.append((o3, okd + [i] if b else okd))
            states = nxt
            for s, okd in states:
                destroyed(e, s, 'while terms are being added')
        for s, okd in states:
            for o in call1(e, s, f_fin, [dg]):
                destroyed(e, o, 'before it is cleaned up')
                for o2 in call1(e, o, f_clean, [dg]):
                    if not memsafety(ctx, R, inst, o2):
                        continue
                    acc_ = [ts[i] for i in okd]
                    d = (1 if acc_ else 0)
                    cases = [(o2, d)]
                    for i in range(1, len(acc_)):
                        cases = [(y, k + (c != 0)) for x, k in cases for y, c in order(e, x, acc_[i - 1], acc_[i])]
                    for s3, dist in cases:
                        q = one(e, s3, ctx.method('Dawg', 'size'), [dg])
                        ctx.judge(R + '.size', inst, q.poly.entails('eq', e.lin(q, q.ret) - dist), q, loc,
                                  f'the size is {e.lin(q, q.ret)}, not the number of distinct accepted terms, {dist}', dict(lengths=str(lens)))
                        q = one(e, s3, ctx.method('Dawg', 'root'), [dg])
                        lang, nodes, bad = language(ctx, e, q, q.norm(q.ret))
                        for s4, n in bad:
                            ctx.judge(R + '.memory', inst, False, s4, loc, 'a freed node stays in the dictionary')
                        for s4, ps in lang:
                            lang_ok(ctx, e, R, inst, loc, s4, ps, acc_, dist, lens)
                        frozen(ctx, e, R, inst, s3, dg)
                    destroyed(e, o2, 'after it was finished')
        dead_check(ctx, e, R, inst)
        ctx.account(e)
    guard(R, inst, ctx, run)
    ctx.instances[f'{R}{lens}'] = cnt[0]


def frozen(ctx, e, R, inst, s, dg):
    """add and remove on a finished dictionary are refused and change nothing"""
    for name in ('add', 'remove'):
        f = ctx.method('SortedDawg', name)
        for k in (0, 1):
            st = s.copy()
            c = e.symbol(st, ('late', 0), int_ty(8))
            st.poly = st.poly.add('ge', c + 128).add('ge', K(127) - c)
            tc = st.new_obj('alloca', 'late')
            st.models[(tc, 0)] = Str([('chr', c)] * k)
            st.ev = []
            for o in call1(e, st, f, [dg, Ptr(tc, 0)]):
                if not memsafety(ctx, R + '.frozen', inst, o):
                    continue
                for o2, b in bool_states(e, o, o.ret):
                    ctx.judge(R + '.frozen', inst, not b, o2, ctx.locof(f), f'{name} reports success on a finished dictionary')
                news = [ev[1] for ev in o.ev if ev[0] == 'new' and ev[1] not in o.freed]
                ctx.judge(R + '.frozen', inst, not news, o, ctx.locof(f), f'{name} allocates memory for a finished dictionary')
                w = foreign(o)
                ctx.judge(R + '.frozen', inst, not w, o, ctx.locof(f), f'{name} modifies a finished dictionary', dict(writes=str(w)[:300]))


def check_frozen(ctx):
    """a dictionary made from a root and a size (as a loaded one is) never changes"""
    R, inst = 'R.fixed', 'SortedDawg'

    def run():
        for edges in SHAPES[:4]:
            g = Graph(ctx, edges)
            e = ctx.engine(hooks=g.hooks())
            e.peel = 6
            st = g.place(State())
            g.label_facts(e, st)
            st, dg = make_dawg(ctx, e, st, Ptr('root', 0), e.symbol(st, 'size', int_ty(64)))
            frozen(ctx, e, R, inst, st, dg)
            dead_check(ctx, e, R, inst)
            ctx.account(e)
    guard(R, inst, ctx, run)
    ctx.instances[R] = 4


def lang_ok(ctx, e, R, inst, loc, s, ps, ts, distinct_, lens):
    def same(a, b):
        return len(a) == len(b) and all(s.poly.entails('eq', x - y) for x, y in zip(a, b))
    extra = [p for p in ps if not any(same(p, t) for t in ts)]
    missing = [t for t in ts if not any(same(p, t) for p in ps)]
    ctx.judge(R + '.language', inst, not extra, s, loc, 'the dictionary holds a term that was not added',
              dict(lengths=str(lens), extra=str(extra), terms=str(ts)))
    ctx.judge(R + '.language', inst, not missing, s, loc, 'a term that was added is not in the dictionary',
              dict(lengths=str(lens), missing=str(missing), paths=str(ps)))
    ctx.judge(R + '.language', inst, len(ps) == distinct_ or bool(extra or missing), s, loc, 'a term has two paths in the dictionary', dict(lengths=str(lens)))
