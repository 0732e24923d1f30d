"""Equality and hashing: of dictionary nodes, dictionaries and memo keys."""
import itertools
from common import *
from lists import *
from rules_tr import bool_states
from rules_dict import acc, guard, new_node, edge_label, make_dawg, edges_now
from irparse import int_ty

MM = re.compile(r'^(MurmurHash64A|std::_Hash_bytes)\(')
NODE_EQ = re.compile(r'^liblevenshtein::DawgNode::operator==\(')
NODE_HASH = re.compile(r'^std::hash<liblevenshtein::DawgNode>::operator\(\)\([^()]*\) const$')


def unfold(st, conds):
    """decide the conditions, forking; [(state, [bool])]"""
    out = [(st, [])]
    for c in conds:
        nxt = []
        for s, bs in out:
            work = [s]
            while work:
                x = work.pop()
                try:
                    nxt.append((x, bs + [x.decide(c)]))
                except NeedFork as nf:
                    y = x.copy()
                    if x.assume(nf.cond):
                        work.append(x)
                    if y._assume_neg(nf.cond):
                        work.append(y)
        out = nxt
    return out


def build_node(ctx, e, st, name, edges, order):
    """a node with the given edges added in the given order; all such states"""
    st, nd = new_node(ctx, e, st, name)
    states = [st]
    for j in order:
        l, t = edges[j]
        states = [o for s in states for o in call1(e, s, acc(ctx)['add'], [nd, l, t])]
    return [(s, nd) for s in states]


def place(st, names):
    for n in names:
        st.objs[n] = ('heap', n, n)


def labels(e, st, name, k):
    ls = []
    for j in range(k):
        l = edge_label(e, st, name, j)
        for q in ls:
            st.poly = st.poly.add('ne', l - q)
        ls.append(l)
    return ls


def transitive(st):
    """the decided equalities of nodes are those of an equivalence"""
    rep = {}

    def find(x):
        while x in rep:
            x = rep[x]
        return x
    eqs = [(k[1], v) for k, v in st.atoms.items() if isinstance(k, tuple) and len(k) == 2 and k[0] == 'atom' and k[1][0] == 'eq']
    for k, v in eqs:
        if v and find(k[1]) != find(k[2]):
            rep[find(k[1])] = find(k[2])
    return all(v or find(k[1]) != find(k[2]) for k, v in eqs)


def h_hash_of(names):
    """hash codes of objects: equal for equal objects, otherwise anything (also the same)"""
    def h(e, st, ins, dem, a):
        x = str(st.norm(a[1]).obj)
        if x not in names:
            return NotImplemented
        rep = st.user.get('hashed', {})
        if x not in rep:
            r = x
            for y in sorted(set(rep.values())):
                if st.decide(('atom', ('eq', *sorted((x, y))))):
                    r = y
                    break
            st.user['hashed'] = rep = dict(rep)
            rep[x] = r
        return e.symbol(st, ('hash', rep[x]), int_ty(64))
    return h


def check_eq_node(ctx, kmax=2):
    """nodes are equal exactly when their flags, labels and (recursively) targets are"""
    R, inst = 'R.eq.node', 'DawgNode'
    fn = ctx.method('DawgNode', 'operator==')
    loc = ctx.locof(fn)
    cnt = [0]

    def h_eq(e, st, ins, dem, a):
        x, y = st.norm(a[0]), st.norm(a[1])
        if x == y:
            return TRUE
        if {x.obj, y.obj} == {'A', 'B'}:
            raise Unsupported('recursion does not descend')
        return B(('atom', ('eq', *sorted((str(x.obj), str(y.obj))))))

    def run(k, m, share):
        ts = [f't{x}{j}' for x in 'ab' for j in range(kmax)]
        e = ctx.engine(max_states=20000, hooks=[(NODE_EQ, h_eq), (MM, h_murmur(ctx, R, inst, True)), (NODE_HASH, h_hash_of(ts))])
        e.peel = max(k, m) + 3
        st = State()
        la, lb = labels(e, st, 'A', k), labels(e, st, 'B', m)
        ta = [f'ta{j}' for j in range(k)]
        tb = [ta[j] if share and j < k else f'tb{j}' for j in range(m)]
        place(st, ta + tb)
        ea, eb = [(l, Ptr(t, 0)) for l, t in zip(la, ta)], [(l, Ptr(t, 0)) for l, t in zip(lb, tb)]
        for s, A in build_node(ctx, e, st, 'A', ea, range(k)):
            for s2, Bn in build_node(ctx, e, s, 'B', eb, range(m)):
                s2.ev = []
                for o in call1(e, s2, fn, [A, Bn]):
                    cnt[0] += 1
                    if not memsafety(ctx, R, inst, o):
                        continue
                    w = foreign(o)
                    ctx.judge(R + '.effects', inst, not w, o, loc, 'comparing nodes modifies something')
                    for o2, b in bool_states(e, o, o.ret):
                        conds = [('atom', ('final', 'A')), ('atom', ('final', 'B'))]
                        for o3, (fa, fb) in unfold(o2, conds):
                            if fa != fb or k != m:
                                ctx.judge(R, inst, not b, o3, loc, 'nodes with different flags or numbers of edges are equal')
                                continue
                            pairs = [(i, j) for i in range(k) for j in range(m)]
                            for o4, es in unfold(o3, [('cmp', 'eq', la[i] - lb[j]) for i, j in pairs]):
                                match = {i: j for (i, j), q in zip(pairs, es) if q}
                                if len(match) < k:
                                    ctx.judge(R, inst, not b, o4, loc, 'nodes with different labels are equal')
                                    continue
                                ats = [(ta[i], tb[match[i]]) for i in range(k)]
                                cs = [('atom', ('eq', *sorted(p))) for p in ats if p[0] != p[1]]
                                for o5, qs in unfold(o4, cs):
                                    if not transitive(o5):
                                        continue
                                    ctx.judge(R, inst, b == all(qs), o5, loc,
                                              'nodes whose targets differ are equal' if b else 'nodes with the same flag, labels and targets are not equal')
        # a node equals itself
        for s, A in build_node(ctx, e, st.copy(), 'A', ea, range(k)):
            for o in call1(e, s, fn, [A, A]):
                for o2, b in bool_states(e, o, o.ret):
                    ctx.judge(R, inst, b, o2, loc, 'a node does not equal itself')
        dead_check(ctx, e, R, inst)
        ctx.account(e)
    guard(R, inst, ctx, lambda: [run(k, m, sh) for k in range(kmax + 1) for m in range(kmax + 1) for sh in (False, True) if k or not sh])
    ctx.instances[R] = cnt[0]


def check_eq_dawg(ctx):
    """dictionaries are equal exactly when their roots are"""
    R, inst = 'R.eq.dawg', 'Dawg'
    fn = ctx.method('Dawg', 'operator==')
    loc = ctx.locof(fn)
    cnt = [0]

    def h_eq(e, st, ins, dem, a):
        x, y = st.norm(a[0]), st.norm(a[1])
        return TRUE if x == y else B(('atom', ('eq', *sorted((str(x.obj), str(y.obj))))))

    def run():
        from rules_dict import sorted_ctor
        e = ctx.engine(hooks=[(NODE_EQ, h_eq), (MM, h_murmur(ctx, R, inst, True)), (NODE_HASH, h_hash_of(('r1', 'r2')))])
        st = State()
        place(st, ['r1', 'r2', 'd1', 'd2'])
        n1, n2 = e.symbol(st, 'n1', int_ty(64)), e.symbol(st, 'n2', int_ty(64))
        c = sorted_ctor(ctx, True)
        st = one(e, st, c, [Ptr('d1', 0), Ptr('r1', 0), n1])
        st = one(e, st, c, [Ptr('d2', 0), Ptr('r2', 0), n2])
        st.ev = []
        for o in call1(e, st, fn, [Ptr('d1', 0), Ptr('d2', 0)]):
            cnt[0] += 1
            memsafety(ctx, R, inst, o)
            for o2, b in bool_states(e, o, o.ret):
                for o3, (q, z) in unfold(o2, [('atom', ('eq', 'r1', 'r2')), ('cmp', 'eq', n1 - n2)]):
                    if b:
                        ctx.judge(R, inst, q, o3, loc, 'dictionaries with different roots are equal')
                    elif z:
                        ctx.judge(R, inst, not q, o3, loc, 'dictionaries with the same size and equal roots are not equal')
        st2 = one(e, st, c, [Ptr('d2', 0), Ptr('r1', 0), n1])
        for o in call1(e, st2, fn, [Ptr('d1', 0), Ptr('d2', 0)]):
            for o2, b in bool_states(e, o, o.ret):
                ctx.judge(R, inst, b, o2, loc, 'a dictionary does not equal one with the same root')
        dead_check(ctx, e, R, inst)
        ctx.account(e)
    guard(R, inst, ctx, run)
    ctx.instances[R] = cnt[0]


# ---------------------------------------------------------------- hashing
def same_bytes(ev, what, n, seed):
    """condition: both calls hash the same bytes, starting from the same code"""
    a, b = ev[1], what
    cs = [('cmp', 'eq', a[2] - n), ('cmp', 'eq', ev[2] - seed)]
    if a[0] != b[0]:
        return F_
    if a[0] == 'cells':
        if len(a[1]) != len(b[1]):
            return F_
        cs += [('cmp', 'eq', x - y) for x, y in zip(a[1], b[1])]
    else:
        x, y = ([p[1] for p in t.parts] if isinstance(t, Str) and all(p[0] == 'chr' for p in t.parts) else None for t in (a[1], b[1]))
        if x is None or y is None:
            return T_ if a[1] == b[1] else F_
        if len(x) != len(y):
            return F_
        cs += [('cmp', 'eq', p - q) for p, q in zip(x, y)]
    return simp(('and', *cs))


def h_murmur(ctx, R, inst, congruent=False):
    """MurmurHash64A as an uninterpreted function of the bytes it is given"""
    def h(e, st, ins, dem, a):
        p = st.norm(a[0])
        n = e.lin(st, a[1])
        seed = e.lin(st, a[2])
        if isinstance(p.obj, tuple) and p.obj[0] == 'cstr':
            s = p.obj[1]
            size = e.models.slen(s)
            if p.off != 0:
                raise Unsupported('hash from the middle of a text')
            if not st.poly.entails('ge', n):
                st.assume(('cmp', 'ge', n))
            if not st.poly.entails('ge', size + 1 - n):
                if st.exact():
                    ctx.bad(R + '.memory', inst, e.where(st, ins), 'hashes bytes beyond the end of a text')
                else:
                    raise Unsupported('hash length')
            what = ('text', s if st.poly.entails('eq', n - size) else ('part', s, n), n)
        else:
            if not n.is_const() or not isinstance(p.off, int):
                raise Unsupported('hash length')
            cells, off = [], p.off
            while off < p.off + n.c:
                v = st.mem.get((p.obj, off))
                if v is None or v is UNDEF:
                    v = e.load(st, Ptr(p.obj, off), int_ty(64), ins)
                    if v is UNDEF:
                        st.dead = True
                        raise Dead('use of an uninitialised value in a hash')
                if isinstance(v, Ptr):
                    v = e.lin(st, v)
                elif isinstance(v, B):
                    v = e.lin(st, v)
                cells.append(v)
                off += 8
            what = ('cells', tuple(cells), n)
        sym = ('mm', what, seed) if 'Hash_bytes' not in dem else ('hb', what, seed)
        if congruent:
            for ev in st.ev:
                if ev[0] == 'murmur' and ev[4][0] == sym[0] and ev[4] != sym and st.decide(same_bytes(ev, what, n, seed)):
                    sym = ev[4]
                    break
        st.ev.append(('murmur', what, seed, e.where(st, ins), sym))
        return e.symbol(st, sym, int_ty(64))
    return h


def h_nodehash(classes):
    def h(e, st, ins, dem, a):
        n = st.norm(a[1])
        if n.obj not in classes:
            return NotImplemented
        return e.symbol(st, ('hash', classes[n.obj]), int_ty(64))
    return h


def same_hash(ctx, R, inst, o, x, y, loc, msg, detail=None):
    ctx.judge(R, inst, o.poly.entails('eq', x - y), o, loc, msg, detail)


def check_hash_node(ctx, kmax=3):
    """equal nodes have equal hash codes, whatever the order their edges came in"""
    R, inst = 'R.hash.node', 'hash of DawgNode'
    fn = ctx.prog.func(r'^std::hash<liblevenshtein::DawgNode>::operator\(\)\([^()]*\) const$')
    loc = ctx.locof(fn)
    cnt = [0]

    def run(k, perm):
        cls = {f't{x}{j}': j for x in 'AB' for j in range(k)}
        e = ctx.engine(max_states=20000, hooks=[(MM, h_murmur(ctx, R, inst)), (NODE_HASH, h_nodehash(cls))])
        e.peel = k + 3
        st = State()
        ls = labels(e, st, 'L', k)
        place(st, list(cls) + ['fn'])
        ea = [(l, Ptr(f'tA{j}', 0)) for j, l in enumerate(ls)]
        eb = [(l, Ptr(f'tB{j}', 0)) for j, l in enumerate(ls)]
        for s, A in build_node(ctx, e, st, 'A', ea, range(k)):
            for s2, Bn in build_node(ctx, e, s, 'B', eb, perm):
                for s3, (fa, fb) in unfold(s2, [('atom', ('final', 'A')), ('atom', ('final', 'B'))]):
                    if fa != fb:
                        continue
                    s3.ev = []
                    for o in call1(e, s3, fn, [Ptr('fn', 0), A]):
                        x = e.lin(o, o.ret)
                        for o2 in call1(e, o, fn, [Ptr('fn', 0), Bn]):
                            cnt[0] += 1
                            if not memsafety(ctx, R, inst, o2):
                                continue
                            same_hash(ctx, R, inst, o2, x, e.lin(o2, o2.ret), loc, 'equal nodes have different hash codes', dict(order=str(perm)))
                            w = foreign(o2)
                            ctx.judge(R + '.effects', inst, not w, o2, loc, 'hashing a node modifies something')
        dead_check(ctx, e, R, inst)
        ctx.account(e)
    guard(R, inst, ctx, lambda: [run(k, pm) for k in range(kmax + 1) for pm in itertools.permutations(range(k))])
    ctx.instances[R] = cnt[0]


def check_hash_dawg(ctx):
    """equal dictionaries have equal hash codes"""
    R, inst = 'R.hash.dawg', 'hash of Dawg'
    fn = ctx.prog.func(r'^std::hash<liblevenshtein::Dawg>::operator\(\)\([^()]*\) const$')
    loc = ctx.locof(fn)
    cnt = [0]

    def run():
        from rules_dict import sorted_ctor
        e = ctx.engine(hooks=[(MM, h_murmur(ctx, R, inst)), (NODE_HASH, h_nodehash({'r1': 0, 'r2': 0}))])
        st = State()
        place(st, ['r1', 'r2', 'd1', 'd2', 'fn'])
        n = e.symbol(st, 'n', int_ty(64))
        c = sorted_ctor(ctx, True)
        st = one(e, st, c, [Ptr('d1', 0), Ptr('r1', 0), n])
        st = one(e, st, c, [Ptr('d2', 0), Ptr('r2', 0), n])
        st.ev = []
        for o in call1(e, st, fn, [Ptr('fn', 0), Ptr('d1', 0)]):
            x = e.lin(o, o.ret)
            for o2 in call1(e, o, fn, [Ptr('fn', 0), Ptr('d2', 0)]):
                cnt[0] += 1
                if memsafety(ctx, R, inst, o2):
                    same_hash(ctx, R, inst, o2, x, e.lin(o2, o2.ret), loc, 'equal dictionaries have different hash codes')
                    w = foreign(o2)
                    ctx.judge(R + '.effects', inst, not w, o2, loc, 'hashing a dictionary modifies something')
        dead_check(ctx, e, R, inst)
        ctx.account(e)
    guard(R, inst, ctx, run)
    ctx.instances[R] = cnt[0]


def text(e, st, name, k):
    cs = []
    for j in range(k):
        c = e.symbol(st, (name, j), int_ty(8))
        cs.append(c)
    o = st.new_obj('alloca', name)
    st.models[(o, 0)] = Str([('chr', c) for c in cs])
    return Ptr(o, 0), cs


def same_text(a, b):
    """conditions for two spelled texts to be equal (None: never)"""
    if len(a) != len(b):
        return None
    return [('cmp', 'eq', x - y) for x, y in zip(a, b)]


def check_pair(ctx, kmax=2):
    """memo keys: the pair (u, v) equals exactly (u, v) and (v, u), with one hash code"""
    R, inst = 'R.key', 'SymmetricPair'
    f_ctor = ctx.prog.find(r'^liblevenshtein::distance::SymmetricPair::SymmetricPair\(.*basic_string.*,')
    if not f_ctor:
        raise AnchorLost('SymmetricPair(u, v)')
    f_ctor = f_ctor[0]
    f_eq = ctx.method('distance::SymmetricPair', 'operator==')
    f_hash = ctx.prog.func(r'^std::hash<liblevenshtein::distance::SymmetricPair>::operator\(\)\([^()]*\) const$')
    loc = ctx.locof(f_eq)
    cnt = [0]

    def run(lu, lv, lx, ly):
        e = ctx.engine(max_states=20000, hooks=[(MM, h_murmur(ctx, R, inst, True))])
        e.peel = 6
        st = State()
        place(st, ['p', 'q', 'fn'])
        pu, u = text(e, st, 'u', lu)
        pv, v = text(e, st, 'v', lv)
        px, x = text(e, st, 'x', lx)
        py, y = text(e, st, 'y', ly)
        for s in call1(e, st, f_ctor, [Ptr('p', 0), pu, pv]):
            for s2 in call1(e, s, f_ctor, [Ptr('q', 0), px, py]):
                s2.ev = []
                for o in call1(e, s2, f_eq, [Ptr('p', 0), Ptr('q', 0)]):
                    cnt[0] += 1
                    for o2, b in bool_states(e, o, o.ret):
                        cs = []
                        for a, c in ((u, x), (v, y), (u, y), (v, x)):
                            q = same_text(a, c)
                            cs.append(simp(('and', *q)) if q and len(q) > 1 else q[0] if q else T_ if q == [] else F_)
                        for o3, (ux, vy, uy, vx) in unfold(o2, cs):
                            want = (ux and vy) or (uy and vx)
                            ctx.judge(R, inst, b == want, o3, loc,
                                      'keys of different pairs of texts are equal' if b else 'keys of the same two texts are not equal')
                            if want and b:
                                for o4 in call1(e, o3.copy(), f_hash, [Ptr('fn', 0), Ptr('p', 0)]):
                                    h = e.lin(o4, o4.ret)
                                    for o5 in call1(e, o4, f_hash, [Ptr('fn', 0), Ptr('q', 0)]):
                                        good = murmurs_equal(o5)
                                        ctx.judge(R + '.hash', inst, good or o5.poly.entails('eq', h - e.lin(o5, o5.ret)), o5, ctx.locof(f_hash),
                                                  'equal keys have different hash codes')
                    w = [ev for ev in o.ev if ev[0] in ('gwrite', 'free')]
                    ctx.judge(R + '.effects', inst, not w, o, loc, 'comparing keys modifies something')
        dead_check(ctx, e, R, inst)
        ctx.account(e)
    lens = [(0, 0, 0, 0), (0, 1, 0, 1), (0, 1, 1, 0), (1, 1, 1, 1), (1, 2, 1, 2), (1, 2, 2, 1), (1, 0, 1, 1), (2, 2, 2, 2), (2, 1, 1, 1)]
    if not getattr(ctx, 'thorough', False):
        lens.remove((2, 2, 2, 2))
    guard(R, inst, ctx, lambda: [run(*l) for l in lens])
    ctx.instances[R] = cnt[0]


def murmurs_equal(o):
    """congruence: the two computations hash pairwise equal bytes with equal seeds"""
    ms = [ev for ev in o.ev if ev[0] == 'murmur']
    if not ms or len(ms) % 2:
        return False
    h = len(ms) // 2
    eqs = []
    for a, b in zip(ms[:h], ms[h:]):
        (ka, ca, na), (kb, cb, nb) = a[1], b[1]
        if ka != kb or not o.poly.entails('eq', na - nb):
            return False
        if ka == 'text':
            if not isinstance(ca, Str) or not isinstance(cb, Str) or len(ca.parts) != len(cb.parts):
                return False
            for x, y in zip(ca.parts, cb.parts):
                if x != y and not (x[0] == y[0] == 'chr' and o.poly.entails('eq', x[1] - y[1])):
                    return False
        else:
            if len(ca) != len(cb) or not all(o.poly.entails('eq', x - y) for x, y in zip(ca, cb)):
                return False
        sa, sb = a[2], b[2]
        if not o.poly.entails('eq', sa - sb) and (sa, sb) not in eqs:
            return False
        eqs.append((Lin.var(('mm', a[1], sa)), Lin.var(('mm', b[1], sb))))
    return True


def check_murmur(ctx, nmax=20):
    """MurmurHash64A reads the given bytes, all of them, and nothing else"""
    R, inst = 'R.murmur', 'MurmurHash64A'
    fn = ctx.prog.func(r'^MurmurHash64A\(')
    loc = ctx.locof(fn)
    cnt = [0]

    def run(n):
        e = ctx.engine()
        e.opaque_mul = True
        e.peel = n // 8 + 3
        st = State()
        st.objs['buf'] = ('sym', 'buf', 'buf')
        st.atoms[('isnull', 'buf')] = False
        st.user['watchread'] = ('buf',)
        seed = e.symbol(st, 'seed', int_ty(64))
        for o in call1(e, st, fn, [Ptr('buf', 0), K(n), seed]):
            cnt[0] += 1
            seen = set()
            for ev in o.ev:
                if ev[0] == 'read':
                    if not isinstance(ev[2], int):
                        raise Unsupported('address of a read')
                    seen |= set(range(ev[2], ev[2] + ev[3]))
            ctx.judge(R + '.memory', inst, seen <= set(range(n)), o, loc, f'reads outside the {n} bytes it is given', dict(read=str(sorted(seen))))
            w = [ev for ev in o.ev if ev[0] in ('gwrite', 'free') or ev[0] == 'write' and ev[1] == 'buf' or ev[0] == 'gread']
            ctx.judge(R + '.effects', inst, not w, o, loc, 'the hash depends on or changes something else than its bytes')
        dead_check(ctx, e, R, inst)
        ctx.account(e)
    guard(R, inst, ctx, lambda: [run(n) for n in range(nmax + 1)])
    ctx.instances[R] = cnt[0]
