"""Rules on the stepping of a Levenshtein state, the initial state, sorting, the distance
read off a state, and the text of a product state."""
from common import *
from lists import *
from rules_pt import sat_quick
from rules_tr import prove, bool_states, purity
from rules_lq import Pipe, cls_fn, RES
from irparse import int_ty, PTR

LIM = 1 << 60


def alg_of(dem):
    m = re.search(r'Algorithm\)(\d)', dem)
    return int(m.group(1)) if m else None


# ------------------------------------------------------------------ R.init
def check_init(ctx, alg, res):
    """the transducer starts from (root, {(0, 0)}) and frees it"""
    R, inst = f'R.init[{alg},{res}]', f'Transducer<{alg},{res}>'
    try:
        p = Pipe(ctx, alg, res)
        p.e.hooks = [h for h in p.e.hooks if h[1] not in (p.h_sdtor, p.h_state)]
        st, tr, root = p.start()
        loc = ctx.locof(p.f_ctor)
        isects = [ev for ev in st.ev if ev[0] == 'isect']
        if len(isects) != 1:
            raise Unsupported('initial intersection')
        _, obj, lab, node, state, parent, w = isects[0]
        ctx.judge(R, inst, node == root, st, w, 'the search does not start at the root of the dictionary')
        ctx.judge(R, inst, parent.obj is None, st, w, 'the first product state has a predecessor')
        s, nodes, end = walk(ctx, p.e, st, state)
        if ctx.judge(R, inst, len(nodes) == 1 and end == 'null', st, w, 'the initial state is not a single position'):
            s, i, er, sp = vals_of(ctx, p.e, s, nodes[0])
            prove(ctx, s, R, inst, loc, [[('ne', i)], [('ne', er)]], 'the initial position is not (0, 0)')
            ctx.judge(R, inst, s.eval(sp) is False, s, loc, 'the initial position is special')
        base = len(st.ev)
        for o in call1(p.e, st, p.f_tdtor, [Ptr(tr, 0)]):
            memsafety(ctx, R, inst, o)
            lost = [ev[1] for ev in o.ev if ev[0] == 'new' and ev[1] not in o.freed]
            ctx.judge(R + '.memory', inst, not lost, o, ctx.locof(p.f_tdtor), f'a transducer does not free {lost}')
            ctx.judge(R + '.memory', inst, 'root' not in o.freed, o, ctx.locof(p.f_tdtor), 'a transducer frees the dictionary')
        dead_check(ctx, p.e, R, inst)
        ctx.account(p.e)
        ctx.instances[R] = 1
    except (Unsupported, NeedFork) as u:
        ctx.maybe(R, inst, '', f'outside the analysed fragment: {u}')


# ------------------------------------------------------------------ R.step
def functor(ctx, alg, res):
    """a state in which a query has just been created, and the StateTransition it uses"""
    key = ('functor', alg, res)
    if key not in ctx.cache:
        p = Pipe(ctx, alg, res, edges=(1, 1), peel=2)
        p.e.peels = [(re.compile('characteristic_vector'), 0)]
        got = []
        for s, q in p.query():
            for ev in s.ev:
                if ev[0] == 'trans':
                    got.append((ev[4], ev[4].user['stt'], p.n, p.len))
                    break
            if got:
                break
        if not got:
            raise Unsupported('no transition reached')
        # the functor lives as long as the query: nothing else changes it
        ctx.account(p.e)
        ctx.cache[key] = got[0]
    return ctx.cache[key]


def check_step(ctx, alg, res, ks=(1, 2, 3)):
    """a step transitions every position once, over the same vector and base, merges all the
    results into one new state, prunes it, sorts it, and yields it unless it is empty"""
    R, inst = f'R.step[{alg},{res}]', f'StateTransition<{alg},{res}>'
    want = ALGS.index(alg)
    fn = ctx.method('StateTransition', 'operator@call')
    loc = ctx.locof(fn)
    try:
        base, this, n, ln = functor(ctx, alg, res)
        cnt = 0

        def h_pt(e, st, ins, dem, a):
            st.ev.append(('pt', alg_of(dem), e.lin(st, a[1]), st.norm(a[2]), st.norm(a[3]), e.lin(st, a[4]), e.where(st, ins)))
            t = st.fresh('res')
            st.models[(a[0].obj, a[0].off)] = Seq(('pt', t), e.symbol(st, ('n', t), int_ty(62)), items=(), et='liblevenshtein::Position*')
            st.ev.append(('ptres', ('pt', t)))
            return None

        def h_merge(e, st, ins, dem, a):
            v = e.models.get(st, a[1], ins)
            st.ev.append(('merge', alg_of(dem), st.norm(a[0]), v, e.where(st, ins)))
            t = st.norm(a[0])
            if not st.user.get('filled') and st.decide(('atom', ('gives', st.fresh('g')))):
                hp = sym_obj(st, st.fresh('head'))
                sethead(e, st, t, hp)
                st.user['filled'] = True
            return None

        def sethead(e, st, t, hp):
            fs = ctx.method('State', 'head', 'liblevenshtein::Position*')
            # link directly: head(p) writes the pointer
            s2 = one(e, st, fs, [t, hp])
            ev = st.ev
            st.__dict__.update(s2.__dict__)
            st.ev = ev

        def h_unsub(e, st, ins, dem, a):
            st.ev.append(('unsub', st.norm(a[1]), e.lin(st, a[2]), st.norm(a[0]), e.where(st, ins)))
            return None

        def h_sort(e, st, ins, dem, a):
            st.ev.append(('sort', st.norm(a[0]), st.norm(a[1]), e.where(st, ins)))
            return None

        def h_sd(e, st, ins, dem, a):
            st.ev.append(('statedtor', st.norm(a[0]).obj, e.where(st, ins)))
            return None
        H = [(re.compile(r'liblevenshtein::position_transition<\(lib'), h_pt),
             (re.compile(r'^void liblevenshtein::merge<\(lib'), h_merge),
             (re.compile(r'^liblevenshtein::UnsubsumeFn::operator\(\)\('), h_unsub),
             (re.compile(r'^liblevenshtein::State::sort\('), h_sort),
             (re.compile(r'^liblevenshtein::State::~State\('), h_sd)]
        for k in ks:
            e = ctx.engine(max_states=20000, hooks=H)
            e.peel = k + 1
            st = base.copy()
            st.frames = []
            st.user.pop('_pend', None)
            st.user['sep'] = set(st.user.get('sep', ())) | {'S1'}
            sp = sym_obj(st, 'S1')
            st, ptrs, vals = shape(ctx, e, st, sp, k)
            vec = st.new_obj('alloca', 'vector')
            from models import Bits
            st.models[(vec, 0)] = Bits('cv', Lin.var('w'), ())
            outs = call1(e, st, fn, [this, sp, Ptr(vec, 0)])
            for o in outs:
                if not memsafety(ctx, R, inst, o):
                    continue
                cnt += 1
                step_path(ctx, R, inst, loc, e, o, sp, ptrs, vals, Ptr(vec, 0), n, ln, want, base)
            if not outs:
                ctx.maybe(R, inst, loc, 'no path returns')
            dead_check(ctx, e, R, inst)
            ctx.account(e)
        # which subsumption the pruning uses, and which order the sorting uses
        check_closures(ctx, R, inst, base, this, want, n)
        ctx.instances[R] = cnt
    except (Unsupported, NeedFork) as u:
        ctx.maybe(R, inst, loc, f'outside the analysed fragment: {u}')


def step_path(ctx, R, inst, loc, e, o, sp, ptrs, vals, vec, n, ln, want, base):
    J = lambda sub, good, msg, where=loc: ctx.judge(R + '.' + sub, inst, good, o, where, msg)
    pts = [ev for ev in o.ev if ev[0] == 'pt']
    rs = [ev[1] for ev in o.ev if ev[0] == 'ptres']
    ms = [ev for ev in o.ev if ev[0] == 'merge']
    if not J('all', sorted(repr(ev[3]) for ev in pts) == sorted(map(repr, ptrs)), 'not every position of the state is transitioned exactly once'):
        return
    for ev in pts:
        J('wiring', ev[1] == want, 'positions step by the rules of another algorithm', ev[-1])
        J('args', o.poly.entails('eq', ev[2] - n), 'positions step with another maximum distance', ev[-1])
        J('args', ev[4] == vec, 'positions step over another characteristic vector', ev[-1])
        J('args', o.poly.entails('eq', ev[5] - vals[0][0]), 'positions step with an offset other than the base of the window', ev[-1])
    for ev in ms:
        J('wiring', ev[1] == want, 'positions are merged by the rules of another algorithm', ev[-1])
    srcs = [ev[3].base if isinstance(ev[3], Seq) else None for ev in ms]
    if not J('all', sorted(map(repr, srcs)) == sorted(map(repr, rs)), 'the positions reached are not merged exactly once'):
        return
    tgt = {ev[2] for ev in ms}
    if not J('all', len(tgt) == 1, 'the positions reached are merged into different states'):
        return
    t = tgt.pop()
    J('all', t != sp and t.obj not in base.objs, 'the step changes an existing state')
    for ev in o.ev:
        if ev[0] == 'unsub':
            J('args', ev[1] == t and o.poly.entails('eq', ev[2] - n), 'the wrong state, or with another maximum distance, is pruned', ev[-1])
        if ev[0] == 'gwrite':
            J('effects', False, f'a step writes global state {ev[1]}', ev[-1])
        if ev[0] == 'write' and ev[1] in base.objs:
            J('effects', False, 'a step modifies the query', ev[-1])
        if ev[0] == 'write' and o.root(ev[1]) == 'S1':
            J('effects', False, 'a step modifies the state it starts from', ev[-1])
        if ev[0] == 'free' and ev[1] != t.obj and ev[1] in base.objs:
            J('effects', False, 'a step frees what it does not own', ev[-1])
    if o.user.get('filled'):
        J('result', o.norm(o.ret) == t and t.obj not in o.freed, 'a non-empty state is not handed on')
        last = max(i for i, ev in enumerate(o.ev) if ev[0] == 'merge')
        sorts = [(i, ev) for i, ev in enumerate(o.ev) if ev[0] == 'sort' and ev[1] == t]
        J('sorted', any(i > last for i, ev in sorts), 'the new state is handed on unsorted')
    else:
        J('result', o.norm(o.ret).obj is None, 'an empty state is handed on')
        J('result', t.obj in o.freed, 'an empty state is not freed')


SORTCMP = re.compile(r'^std::function<int \(liblevenshtein::Position\*, liblevenshtein::Position\*\)>::operator\(\)')


def check_closures(ctx, R, inst, base, this, want, n):
    fn = ctx.method('StateTransition', 'operator@call')

    def tag(kind):
        def h(e, st, ins, dem, a):
            st.ev.append((kind, alg_of(dem), e.where(st, ins)))
            return FALSE if kind == 'sub' else K(0)
        return h

    def h_merge(e, st, ins, dem, a):
        t = st.norm(a[0])
        if st.user.get('filled'):
            return None
        st.user['filled'] = True
        x, y = sym_obj(st, 'h1'), sym_obj(st, 'h2')
        st.user['sep'] = set(st.user['sep']) | {'h1', 'h2'}
        sn = ctx.method('Position', 'next', 'liblevenshtein::Position*')
        st2 = one(e, st, sn, [y, NULL])
        st2 = one(e, st2, ctx.method('State', 'head', 'liblevenshtein::Position*'), [t, y])
        st2 = one(e, st2, ctx.method('State', 'head', 'liblevenshtein::Position*'), [t, x])
        acc = pos_acc(ctx)
        st2, i, er, s = vals_of(ctx, e, st2, x)
        st2, j, f, t2 = vals_of(ctx, e, st2, y)
        # both monotone orders of errors, so that pruning has something to compare
        st2.poly = st2.poly.add('ge', (f - er) - 1)
        st.__dict__.update(st2.__dict__)
        return None

    def h_pt(e, st, ins, dem, a):
        st.models[(a[0].obj, a[0].off)] = Seq(None, K(0), items=(), et='liblevenshtein::Position*')
        return None

    def h_sd(e, st, ins, dem, a):
        return None
    H = [(re.compile(r'liblevenshtein::position_transition<\(lib'), h_pt),
         (re.compile(r'^void liblevenshtein::merge<\(lib'), h_merge),
         (re.compile(r'^bool liblevenshtein::subsumes<\(lib'), tag('sub')),
         (re.compile(r'^int liblevenshtein::compare<\(lib'), tag('cmp')),
         (re.compile(r'^liblevenshtein::State::~State\('), h_sd)]
    e = ctx.engine(max_states=20000, hooks=H)
    e.peel = 4
    e.rec_limit = 6
    st = base.copy()
    st.frames = []
    st.user.pop('_pend', None)
    st.user['sep'] = set(st.user.get('sep', ())) | {'S1'}
    sp = sym_obj(st, 'S1')
    st, ptrs, vals = shape(ctx, e, st, sp, 1)
    vec = st.new_obj('alloca', 'vector')
    from models import Bits
    st.models[(vec, 0)] = Bits('cv', Lin.var('w'), ())
    seen = {'sub': 0, 'cmp': 0}
    for o in call1(e, st, fn, [this, sp, Ptr(vec, 0)]):
        for ev in o.ev:
            if ev[0] in ('sub', 'cmp'):
                seen[ev[0]] += 1
                # the order is by index for every algorithm, so any of them will do for sorting
                if ev[0] == 'sub':
                    ctx.judge(R + '.wiring', inst, ev[1] == want, o, ev[-1], 'positions are pruned by the rules of another algorithm')
                else:
                    ctx.ok(R + '.wiring', inst, ev[-1])
    ctx.account(e)


# ------------------------------------------------------------------ R.sort
def check_sort(ctx, kmax=4):
    R, inst = 'R.sort', 'State::sort'
    fn = ctx.method('State', 'sort')
    loc = ctx.locof(fn)
    cnt = 0
    try:
        for k in range(0, kmax + 1):
            cells = {}

            def h(e, st, ins, dem, a):
                x, y = st.norm(a[1]), st.norm(a[2])
                st2, i, er, s = vals_of(ctx, e, st, x)
                st2, j, f, t = vals_of(ctx, e, st2, y)
                ev, fr = st.ev, st.frames
                st.__dict__.update({k_: v for k_, v in st2.__dict__.items() if k_ not in ('ev', 'frames')})
                if st.decide(('cmp', 'ge', j - i - 1)):
                    r = K(-1)
                elif st.decide(('cmp', 'ge', i - j - 1)):
                    r = K(1)
                else:
                    r = K(0)
                return e.unsgn(st, r, 32) if hasattr(e, 'unsgn') else (r if r.c >= 0 else K((1 << 32) - 1))
            e = ctx.engine(max_states=60000, hooks=[(SORTCMP, h)])
            e.peel = k + 2
            e.rec_limit = k + 3
            st = State()
            sp = sym_obj(st, 'state')
            cp = sym_obj(st, 'cmp')
            st.user['sep'] = {'state', 'cmp'}
            st, ptrs, vals = shape(ctx, e, st, sp, k)
            for o in call1(e, st, fn, [sp, cp]):
                cnt += 1
                if not memsafety(ctx, R, inst, o):
                    continue
                s, new, end = walk(ctx, e, o, sp)
                if not ctx.judge(R + '.list', inst, end == 'null' and sorted(map(repr, new)) == sorted(map(repr, ptrs)), o, loc,
                                 'sorting loses, repeats or cycles positions'):
                    continue
                ctx.judge(R + '.list', inst, not o.freed, o, loc, 'sorting frees positions')
                v = dict(zip(ptrs, vals))
                ids = [v[p][0] for p in new]
                good = all(o.poly.entails('ge', y - ids[0]) for y in ids[1:])
                ctx.judge(R + '.order', inst, good, o, loc, 'the head of a sorted state is not a position of least index')
                w = [ev for ev in o.ev if ev[0] == 'gwrite']
                ctx.judge(R + '.effects', inst, not w, o, loc, 'sorting writes global state')
                s2 = o
                for p, (i, er, sp_) in v.items():
                    s2, i2, e2, t2 = vals_of(ctx, e, s2, p)
                    ctx.judge(R + '.list', inst, i2 == i and e2 == er and t2 == sp_, o, loc, 'sorting changes positions')
            dead_check(ctx, e, R, inst)
            ctx.account(e)
        ctx.instances[R] = cnt
    except (Unsupported, NeedFork) as u:
        ctx.maybe(R, inst, loc, f'outside the analysed fragment: {u}')


# ------------------------------------------------------------------ R.dist
def check_dist(ctx, alg, kmax=3):
    """distance = min over ordinary positions of remaining characters + errors; nothing small
    when there is no ordinary position"""
    R, inst = f'R.dist[{alg}]', f'distance<{alg}>'
    fn = ctx.alg_fn('distance', alg)
    loc = ctx.locof(fn)
    cnt = 0
    try:
        for k in range(1, kmax + 1):
            e = ctx.engine(max_states=60000)
            e.peel = k + 1
            st = State()
            sp = sym_obj(st, 'state')
            st.user['sep'] = {'state'}
            st, ptrs, vals = shape(ctx, e, st, sp, k)
            ln = e.symbol(st, 'len', int_ty(62))
            st.poly = st.poly.add('ge', K(LIM) - ln)
            for i, er, s in vals:
                st.poly = st.poly.add('ge', ln - i).add('ge', K(LIM) - er)
                if alg == 'STANDARD':
                    st._assume_neg(s)
            st.facts = []
            for o in call1(e, st, fn, [sp, ln]):
                cnt += 1
                if not memsafety(ctx, R, inst, o):
                    continue
                purity(ctx, R, inst, o)
                r = e.uns(o, e.lin(o, o.ret), 64)
                work = [(o, [])]
                for i, er, s in vals:
                    nxt = []
                    for q, l in work:
                        for q2, b in bool_states(e, q.copy(), B(s)):
                            nxt.append((q2, l + [b]))
                    work = nxt
                for q, sps in work:
                    ds = [ln - i + er for (i, er, s), b in zip(vals, sps) if not b]
                    bad = [[('ge', r - d - 1)] for d in ds]
                    bad.append([('ge', d - r - 1) for d in ds] if ds else [('ge', K((1 << 63) - 1) - r)])
                    prove(ctx, q, R, inst, loc, bad, 'the distance is not the least of remaining characters plus errors over the ordinary positions')
            dead_check(ctx, e, R, inst)
            ctx.account(e)
        ctx.instances[R] = cnt
    except (Unsupported, NeedFork) as u:
        ctx.maybe(R, inst, loc, f'outside the analysed fragment: {u}')


# ------------------------------------------------------------------ R.free
def check_free(ctx, kmax=3):
    """destroying a state frees each of its positions once"""
    R, inst = 'R.free', 'State::~State'
    fn = ctx.method('State', '~State')
    loc = ctx.locof(fn)
    try:
        for k in range(0, kmax + 1):
            e = ctx.engine()
            e.peel = k + 1
            e.rec_limit = k + 3
            st = State()
            sp = sym_obj(st, 'state')
            st.user['sep'] = {'state'}
            st, ptrs, vals = shape(ctx, e, st, sp, k)
            for o in call1(e, st, fn, [sp]):
                if not memsafety(ctx, R, inst, o):
                    continue
                ctx.judge(R, inst, all(p.obj in o.freed for p in ptrs), o, loc, 'destroying a state leaks positions')
            dead_check(ctx, e, R, inst)
            ctx.account(e)
        ctx.instances[R] = kmax + 1
    except (Unsupported, NeedFork) as u:
        ctx.maybe(R, inst, loc, f'outside the analysed fragment: {u}')


# ------------------------------------------------------------------ R.str
def check_str(ctx, cls='Intersection', kmax=3):
    """the text of a product state / prefix is the labels from the root down to it"""
    R, inst = f'R.str[{cls}]', f'{cls}::str'
    fn = ctx.method(cls, 'str[abi:cxx11]', '')
    loc = ctx.locof(fn)
    try:
        ctors = [f for d, l in ctx.prog.by_dem.items() for f in l if skel(d)[0] == f'{NS}{cls}::{cls}']
        ctor = {}
        for f in ctors:
            f.parse()
            ps = [x.strip() for x in split_targs(skel(f.dem)[2])]
            ctor[tuple(ps)] = f
        for k in range(0, kmax + 1):
            e = ctx.engine()
            e.rec_limit = k + 4
            e.peel = k + 2
            st = State()
            prev = NULL
            want = []
            objs = []
            for j in range(k + 1):
                o = st.new_obj('alloca', f'{cls}{j}')
                objs.append(o)
                node = sym_obj(st, f'node{j}')
                lab = e.symbol(st, ('lab', j), int_ty(8))
                if cls == 'Intersection':
                    f = next((x for p, x in ctor.items() if p[0] == 'char' and len(p) == 4), None)
                    args = [Ptr(o, 0), lab if j else K(0), node, sym_obj(st, f'st{j}'), prev]
                elif j == 0:
                    f = next((x for p, x in ctor.items() if len(p) == 1 and 'DawgNode' in p[0]), None)
                    args = [Ptr(o, 0), node]
                else:
                    f = next((x for p, x in ctor.items() if len(p) == 3), None)
                    args = [Ptr(o, 0), node, prev, lab]
                if f is None:
                    raise Unsupported('constructor not found')
                st = one(e, st, f, args)
                if j:
                    want.append(('chr', lab))
                prev = Ptr(o, 0)
            res = st.new_obj('alloca', 'text')
            st.ev = []
            for o in call1(e, st, fn, [Ptr(res, 0), prev]):
                if not memsafety(ctx, R, inst, o):
                    continue
                v = o.models.get((res, 0))
                if not isinstance(v, Str):
                    raise Unsupported('text not resolved')
                ctx.judge(R, inst, v == Str(want), o, loc, 'the text is not the labels from the root to the node, in order',
                          dict(got=str(v), want=str(Str(want))))
                purity(ctx, R, inst, o)
            dead_check(ctx, e, R, inst)
            ctx.account(e)
        ctx.instances[R] = kmax + 1
    except (Unsupported, NeedFork) as u:
        ctx.maybe(R, inst, loc, f'outside the analysed fragment: {u}')
