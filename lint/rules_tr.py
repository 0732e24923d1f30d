"""Rules on the Levenshtein states: ordering, subsumption, merging, pruning, list
operations and the distance read off a final state."""
from common import *
from lists import *
from rules_pt import viol, sat_quick
from irparse import int_ty, PTR

LIM = 1 << 60


def prove(ctx, s, rule, inst, loc, alts, msg):
    """every conjunction in alts must be impossible in s"""
    good = True
    for c in alts:
        if not sat_quick(s, c):
            continue
        good = False
        m = sat(s, c)
        if m is None:
            good = True
            continue
        if m == 'unknown':
            ctx.maybe(rule, inst, loc, msg)
        else:
            ctx.judge(rule, inst, False, s, loc, msg, dict(witness=show(m)))
        break
    if good:
        ctx.ok(rule, inst, loc)
    return good


def two_pos(ctx, e):
    st = State()
    a, b = sym_obj(st, 'lhs'), sym_obj(st, 'rhs')
    distinct(st, [a, b])
    st, i, er, s = vals_of(ctx, e, st, a)
    st, j, f, t = vals_of(ctx, e, st, b)
    for x in (i, er, j, f):
        st.poly = st.poly.add('ge', K(LIM) - x)
    st.facts = []
    return st, a, b, (i, er, s), (j, f, t)


def check_compare(ctx, alg):
    """positions are ordered by index: the head of a sorted state is the window base"""
    R, inst = f'R.compare[{alg}]', f'compare<{alg}>'
    fn = ctx.alg_fn('compare', alg)
    loc = ctx.locof(fn)
    e = ctx.engine()
    try:
        st, a, b, (i, er, s), (j, f, t) = two_pos(ctx, e)
        outs = call1(e, st, fn, [a, b])
        for o in outs:
            r = e.sgn(o, e.lin(o, o.ret), 32)
            prove(ctx, o, R, inst, loc, [[('ge', j - i - 1), ('ge', r)]], 'a position with the smaller index does not sort first')
            prove(ctx, o, R, inst, loc, [[('ge', i - j - 1), ('ge', -r)]], 'a position with the larger index does not sort last')
            purity(ctx, R, inst, o)
        ctx.instances[R] = len(outs)
    except Unsupported as u:
        ctx.maybe(R, inst, loc, f'outside the analysed fragment: {u}')
    except NeedFork as u:
        ctx.maybe(R, inst, loc, f'result not resolved')
    ctx.account(e)


def purity(ctx, R, inst, o, roots=None):
    for ev in o.ev:
        if ev[0] == 'gwrite':
            ctx.judge(R + '.effects', inst, False, o, ev[-1], f'writes global state {ev[1]}')
        if ev[0] == 'write' and o.meta(ev[1])[0] == 'sym' and (roots is None or o.root(ev[1]) in roots):
            ctx.judge(R + '.effects', inst, False, o, ev[-1], f'modifies an object it only inspects ({oname(ev[1])})')
        if ev[0] in ('uaf', 'doublefree', 'nullderef'):
            ctx.judge(R + '.effects', inst, False, o, ev[-1], ev[0])


def bool_states(e, st, v):
    """[(state, bool)] for a boolean result"""
    c = e.cond(st, v)
    work, out = [st], []
    while work:
        s = work.pop()
        try:
            out.append((s, s.decide(c)))
        except NeedFork as nf:
            t = s.copy()
            if s.assume(nf.cond):
                work.append(s)
            if t._assume_neg(nf.cond):
                work.append(t)
    return out


def check_subsumes(ctx, alg):
    """lhs subsumes rhs only if every suffix accepted from rhs is accepted from lhs"""
    R, inst = f'R.subsumes[{alg}]', f'subsumes<{alg}>'
    fn = ctx.alg_fn('subsumes', alg)
    loc = ctx.locof(fn)
    e = ctx.engine()
    n_ = 0
    try:
        st, a, b, (i, er, s), (j, f, t) = two_pos(ctx, e)
        n = e.symbol(st, 'n', int_ty(64))
        st.poly = st.poly.add('ge', f - er - 1).add('ge', n - f)
        for sp in (False, True):
            for tp in (False, True):
                if alg == 'STANDARD' and (sp or tp):
                    continue
                q = st.copy()
                (q.assume if sp else q._assume_neg)(s)
                (q.assume if tp else q._assume_neg)(t)
                for o in call1(e, q, fn, [a, b, n]):
                    n_ += 1
                    purity(ctx, R, inst, o)
                    for o2, r in bool_states(e, o, o.ret):
                        if not r:
                            ctx.ok(R, inst, loc)
                            continue
                        d = f - er
                        absd = [[('ge', j - i - d - 1)], [('ge', i - j - d - 1)]]
                        if alg == 'TRANSPOSITION':
                            if sp and tp:
                                alts = [[('ne', i - j)]]
                            elif sp:
                                alts = [[('ne', i - j)], [('ne', f - n)]]
                            elif tp:
                                alts = [[('ge', i - j - 1), ('ge', i - j - 1 - d - 1)], [('ge', j - i), ('ge', j - i + 1 - d - 1)]]
                            else:
                                alts = absd
                        elif alg == 'MERGE_AND_SPLIT' and sp and not tp:
                            alts = [[]]
                        else:
                            alts = absd
                        prove(ctx, o2, R, inst, loc, alts,
                              f'claims that {"a special" if sp else "a"} position subsumes {"a special" if tp else "a"} one it does not cover')
        ctx.instances[R] = n_
    except (Unsupported, NeedFork) as u:
        ctx.maybe(R, inst, loc, f'outside the analysed fragment: {u}')
    ctx.account(e)


# ---------------------------------------------------------------- merge
def old_list(ctx, e, o, sp):
    """the list as it was on entry"""
    s = o.copy()
    for k, v in o.lazy.items():
        if not (isinstance(k, tuple) and k and k[0] == 'M'):
            s.mem[k] = v
    s.freed = {}
    s.ev = []
    return walk(ctx, e, s, sp)[1:]


def merge_run(ctx, alg, na, k):
    """analyse merge of na positions into a list of unknown length (k None) or of exactly k"""
    fn = ctx.alg_fn('merge', alg)
    e = ctx.engine(max_states=60000)
    st = State()
    sp = sym_obj(st, 'state')
    st.user['sep'] = {'state'} | {f'a{x}' for x in range(na)}
    if k is not None:
        e.peel = k + na + 1
        st, ptrs, vals = shape(ctx, e, st, sp, k)
    new, avs, els = [], [], []
    for x in range(na):
        a = sym_obj(st, f'a{x}')
        st, i, er, s = vals_of(ctx, e, st, a)
        st = one(e, st, pos_acc(ctx)['next'], [a])
        st.assume(('isnull', st.ret))
        st.poly = st.poly.add('ge', K(LIM) - i).add('ge', K(LIM) - er)
        if alg == 'STANDARD':
            st._assume_neg(s)
        el = st.new_obj('elem', 'el')
        st.mem[(el, 0)] = a
        new.append(a)
        avs.append((i, er, s))
        els.append(el)
    if k is not None and alg == 'STANDARD':
        for i, er, s in vals:
            st._assume_neg(s)
    vec = st.new_obj('alloca', 'positions')
    st.models[(vec, 0)] = Seq(None, K(0), items=tuple(els), et='liblevenshtein::Position*')
    st.ev = []
    st.facts = []
    outs = call1(e, st, fn, [sp, Ptr(vec, 0)])
    return fn, e, sp, new, avs, outs


def check_merge(ctx, alg):
    R, inst = f'R.merge[{alg}]', f'merge<{alg}>'
    fn = ctx.alg_fn('merge', alg)
    loc = ctx.locof(fn)
    ordobs = {'desc': [], 'asc': []}
    total = 0
    for na, k in ((1, None), (2, 1) if alg == 'STANDARD' else (2, 0)):
        try:
            fn, e, sp, new, avs, outs = merge_run(ctx, alg, na, k)
            for o in outs:
                if not memsafety(ctx, R, inst, o):
                    continue
                for ev in o.ev:
                    if ev[0] == 'gwrite':
                        ctx.judge(R + '.effects', inst, False, o, ev[-1], f'writes global state {ev[1]}')
                merge_path(ctx, e, R, inst, loc, o, sp, new, avs, alg, ordobs)
            dead_check(ctx, e, R, inst)
            total += len(outs)
            ctx.account(e)
        except (Unsupported, NeedFork) as u:
            ctx.maybe(R, inst, loc, f'outside the analysed fragment: {u}')
    ctx.instances[R] = total

    # one direction of the error order must be kept by every path
    def worst(l):
        return [x for x in l if x[0] == 'violation'], [x for x in l if x[0] == 'undecided']
    if not ordobs['desc']:
        pass
    elif any(not any(worst(ordobs[d])) for d in ('desc', 'asc')):
        ctx.ok(R + '.order', inst, loc, 'errors stay monotone along the list')
    else:
        vs = {d: worst(ordobs[d]) for d in ('desc', 'asc')}
        if all(v[0] for v in vs.values()):
            if unsub_any_order(ctx):
                ctx.ok(R + '.order', inst, loc, 'pruning does not rely on the order')
            else:
                x = vs['desc'][0][0]
                ctx.bad(R + '.order', inst, loc, 'the list is left neither ascending nor descending by errors, so that '
                        'pruning compares positions it must not', x[1])
        else:
            ctx.maybe(R + '.order', inst, loc, 'order of the list not decided')


def merge_path(ctx, e, R, inst, loc, o, sp, news, avs, alg, ordobs):
    widened = not o.exact()
    old, oend = old_list(ctx, e, o, sp)
    s, new, nend = walk(ctx, e, o, sp)
    nas = [s.norm(a) for a in news]
    if not widened:
        if nend == 'cycle':
            ctx.judge(R + '.list', inst, False, o, loc, 'the list is left cyclic')
            return
        rest = [p for p in new if p not in nas]
        good = rest == old[:len(rest)] and (len(rest) == len(old) or nend == 'open')
        if not good:
            lost = [p for p in old if p not in rest]
            ctx.judge(R + '.list', inst, not lost and sorted(map(repr, rest)) == sorted(map(repr, old)), o, loc,
                      'merging loses or repeats positions that were already in the state')
        st2 = s
        for x, a in enumerate(nas):
            cnt = sum(1 for p in new if p == a)
            freed = a.obj in o.freed
            if freed:
                ctx.judge(R + '.list', inst, cnt == 0, o, loc, 'a position is freed while the state still holds it')
                eq = None
                for p in old + [q for q in nas if q != a]:
                    if p.obj in o.freed and p in nas:
                        continue
                    if p in nas:
                        val = avs[nas.index(p)]
                    else:
                        st2, j, f, t = vals_of(ctx, e, st2, p)
                        val = (j, f, t)
                    if entails_sub(st2, val, avs[x], alg):
                        eq = p
                        break
                ctx.judge(R + '.drop', inst, eq is not None, o, loc, 'a position is dropped although the state holds no equal one')
            else:
                ctx.judge(R + '.list', inst, cnt == 1, o, loc,
                          'a merged position is neither kept in the state nor freed' if cnt == 0 else 'a position is linked twice')
        vals = {p: av[1] for p, av in zip(nas, avs)}
        for p in set(new) | set(old):
            if p not in vals:
                st2, j, f, t = vals_of(ctx, e, st2, p)
                vals[p] = f
        pre = [(vals[x], vals[y]) for x, y in zip(old, old[1:])]
        post = [(vals[x], vals[y]) for x, y in zip(new, new[1:])]
    else:
        # local splice: the nodes around a
        a, na, er = news[0], nas[0], avs[0][1]
        pre, post = [], []
        if len(news) > 1 or a.obj in o.freed:
            return
        st2 = one(e, s, pos_acc(ctx)['next'], [a])
        n1 = st2.norm(st2.ret)
        prevs = [ev for ev in o.ev if ev[0] == 'write' and isinstance(ev[3], Ptr) and o.norm(ev[3]) == na
                 and o.root(ev[1]) == 'state' and ev[1] != 'state']
        if st2.eval(('isnull', n1)) is False:
            st2, j, f, t = vals_of(ctx, e, st2, n1)
            post.append((er, f))
        if prevs:
            st2, j, pf, t = vals_of(ctx, e, st2, Ptr(prevs[-1][1], 0))
            post.append((pf, er))
            if st2.eval(('isnull', n1)) is False:
                pre.append((pf, f))
    for d in ('desc', 'asc'):
        sgn = 1 if d == 'desc' else -1
        base = [('ge', (x - y) * sgn) for x, y in pre]
        res = 'ok', None
        for x, y in post:
            c = base + [('ge', (y - x) * sgn - 1)]
            if not sat_quick(st2, c):
                continue
            m = sat(st2, c)
            if m is None:
                continue
            if m == 'unknown' or widened:
                res = 'undecided', None
            else:
                res = 'violation', dict(witness=show(m), path=o.facts[-20:])
                break
        ordobs[d].append(res)


def entails_sub(st, p, r, alg):
    (j, f, t), (i, er, s) = p, r
    if st.poly.entails('eq', i - j) and st.poly.entails('eq', er - f):
        if alg == 'STANDARD':
            return True
        a, b = st.eval(s), st.eval(t)
        if s == t or (a is not None and a == b):
            return True
        if a is True and b is False:
            return False
    if alg == 'STANDARD' or st.eval(s) is False and st.eval(t) is False or alg == 'MERGE_AND_SPLIT' and st.eval(t) is False:
        return st.poly.entails('ge', er - f - (i - j)) and st.poly.entails('ge', er - f - (j - i)) \
            and (st.eval(s) is st.eval(t) or st.poly.entails('ge', er - f - 1))
    return False


# ---------------------------------------------------------------- unsubsume
SUBFN = re.compile(r'^std::function<bool \(liblevenshtein::Position\*, liblevenshtein::Position\*, unsigned long\)>::operator\(\)')


def unsub_runs(ctx):
    """[(engine, final state, nodes, vals, n)] over lists of up to three positions"""
    if 'unsub' in ctx.cache:
        return ctx.cache['unsub']
    fn = ctx.method('UnsubsumeFn', 'operator@call')
    res = []
    for k in range(0, 4):
        def h(e, st, ins, dem, args):
            c = ('atom', ('sub', st.norm(args[1]), st.norm(args[2])))
            r = st.decide(c)
            st.ev.append(('subsumes', st.norm(args[1]), st.norm(args[2]), args[3], r, e.where(st, ins)))
            return TRUE if r else FALSE
        e = ctx.engine(max_states=60000, hooks=[(SUBFN, h)])
        e.peel = k + 1
        st = State()
        fo = sym_obj(st, 'self')
        sp = sym_obj(st, 'state')
        st.user['sep'] = {'state', 'self'}
        st, ptrs, vals = shape(ctx, e, st, sp, k)
        n = e.symbol(st, 'n', int_ty(64))
        st.ev = []
        for o in call1(e, st, fn, [fo, sp, n]):
            res.append((e, o, sp, ptrs, vals, n))
        ctx.account(e)
        res.append((e, None, sp, ptrs, vals, n))
    ctx.cache['unsub'] = res
    return res


def unsub_any_order(ctx):
    """does pruning consult subsumes only on pairs with strictly fewer errors, whatever the order?"""
    try:
        for e, o, sp, ptrs, vals, n in unsub_runs(ctx):
            if o is None or not o.exact():
                continue
            v = dict(zip(ptrs, vals))
            for ev in o.ev:
                if ev[0] == 'subsumes' and ev[1] in v and ev[2] in v:
                    if sat_quick(o, [('ge', v[ev[1]][1] - v[ev[2]][1])]):
                        return False
        return True
    except (Unsupported, NeedFork):
        return False


def check_unsub(ctx):
    R, inst = 'R.unsubsume', 'UnsubsumeFn'
    fn = ctx.method('UnsubsumeFn', 'operator@call')
    loc = ctx.locof(fn)
    try:
        cnt = 0
        for e, o, sp, ptrs, vals, n in unsub_runs(ctx):
            if o is None:
                dead_check(ctx, e, R, inst)
                continue
            cnt += 1
            if not o.exact():
                continue
            if not memsafety(ctx, R, inst, o):
                continue
            s, new, nend = walk(ctx, e, o, sp)
            gone = [p for p in ptrs if p.obj in o.freed]
            keep = [p for p in ptrs if p not in gone]
            ctx.judge(R + '.list', inst, nend == 'null' and sorted(map(repr, new)) == sorted(map(repr, keep)), o, loc,
                      'pruning leaves a list that is not the old one without the freed positions')
            v = dict(zip(ptrs, vals))
            for d in ('desc', 'asc'):
                sg = 1 if d == 'desc' else -1
                mono = [('ge', (v[x][1] - v[y][1]) * sg) for x, y in zip(ptrs, ptrs[1:])]
                for g in gone:
                    why = [ev for ev in o.ev if ev[0] == 'subsumes' and ev[2] == g and ev[4] and ev[1] in v]
                    if not why:
                        if sat_quick(o, mono):
                            ctx.judge(R + '.prune', inst, False, o, loc, 'a position is removed that no other one was found to subsume')
                        continue
                    c = list(mono)
                    for ev in why[:1]:
                        c.append(('ge', v[ev[1]][1] - v[g][1]))
                    if sat_quick(o, c):
                        m = sat(o, c)
                        if isinstance(m, dict):
                            ctx.judge(R + '.prune', inst, False, o, loc, 'a position is removed in favour of one with as many or more errors',
                                      dict(witness=show(m), order=d))
                            continue
                    ctx.ok(R + '.prune', inst, loc)
            for ev in o.ev:
                if ev[0] == 'subsumes':
                    ctx.judge(R + '.arg', inst, isinstance(ev[3], Lin) and o.poly.entails('eq', ev[3] - n), o, ev[-1],
                              'subsumption is judged with another maximum distance')
        ctx.instances[R] = cnt
    except (Unsupported, NeedFork) as u:
        ctx.maybe(R, inst, loc, f'outside the analysed fragment: {u}')
