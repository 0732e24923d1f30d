"""R.pt: position transitions of the Levenshtein automata.

For every path of position_transition<T> (with the window precondition its caller
establishes, see R.window) the positions returned are compared with the definition of
the edit operations of T:
  sound     each returned position is reached from the given one by reading the input
            character, at a cost not below the cheapest edit script, within max_distance
            and within the query term
  complete  each position the definition requires is returned or subsumed by one that is
  window    the characteristic vector is only read inside its bounds
  fresh     every allocation is returned exactly once
"""
from common import *
from irparse import PTR, int_ty

LIM = 1 << 61


def setup(ctx, alg):
    fn = ctx.alg_fn('position_transition', alg)
    fn.parse()
    e = ctx.engine(max_states=20000)
    st = State()
    vec = st.new_obj('alloca', 'result')
    pos = Ptr('position', 0)
    st.objs['position'] = ('sym', 'position', 'position')
    st.atoms[('isnull', 'position')] = False
    cvp = Ptr('cv', 0)
    st.objs['cv'] = ('sym', 'cv', 'cv')
    st.atoms[('isnull', 'cv')] = False
    n = e.symbol(st, 'n', int_ty(64))
    off = e.symbol(st, 'offset', int_ty(64))
    return fn, e, st, vec, pos, cvp, n, off


def accessors(ctx):
    return {k: ctx.method('Position', k, '') for k in ('term_index', 'num_errors', 'is_special', 'next')}


def read_pos(ctx, e, st, p, acc):
    """[(state, i, e, special cond)]"""
    res = [(st, [])]
    for k in ('term_index', 'num_errors', 'is_special'):
        nxt = []
        for s, vals in res:
            for o in call1(e, s, acc[k], [p]):
                nxt.append((o, vals + [o.ret]))
        res = nxt
    out = []
    for s, (a, b, c) in res:
        out.append((s, e.uns(s, e.lin(s, a), 64), e.uns(s, e.lin(s, b), 64), e.cond(s, c)))
    return out


def args_for(fn, vec, n, pos, cvp, off):
    """bind arguments by type and order: sret, size_t n, Position*, vector<bool>&, size_t offset"""
    ints, ptrs = [n, off], [pos, cvp]
    args, k = [], 0
    for name, ty, at in fn.params:
        if k == 0 and ty.k == 'ptr' and len(fn.params) == 5:
            args.append(Ptr(vec, 0))
        elif ty.k == 'int':
            args.append(ints.pop(0))
        else:
            args.append(ptrs.pop(0))
        k += 1
    return args


def check_pt(ctx, alg):
    R = f'R.pt[{alg}]'
    acc = accessors(ctx)
    fn, e, st0, vec, pos, cvp, n, off = setup(ctx, alg)
    loc = ctx.locof(fn)
    inst = 'position_transition<' + alg + '>'
    try:
        starts = read_pos(ctx, e, st0, pos, acc)
        npaths = 0
        for st, i, er, sp in starts:
            b = e.models.bits_at(st, cvp)
            w = b.n
            rem = Lin.var('rem')
            D = w - (i - off)
            base = [('ge', i - off), ('ge', n - er), ('ge', D), ('ge', rem - D), ('ge', K(LIM) - i), ('ge', K(LIM) - w), ('ge', K(LIM) - rem),
                    ('ge', off)]
            for special in ((False, True) if alg != 'STANDARD' else (False,)):
                for wcase in ('end', 'wide'):
                    s = st.copy()
                    r = s.eval(sp)
                    if r is None:
                        s.assume(sp if special else neg(sp))
                    elif r != special:
                        continue
                    for k, l in base:
                        s.poly = s.poly.add(k, l)
                    need = n - er + (3 if special else 1)
                    if wcase == 'end':
                        s.poly = s.poly.add('eq', rem - D)
                    else:
                        s.poly = s.poly.add('ge', D - need).add('ge', rem - D - 1)
                    if special:
                        s.poly = s.poly.add('ge', er - 1).add('ge', rem - (2 if alg == 'TRANSPOSITION' else 1))
                    if s.poly.unsat():
                        continue
                    s.ev = []
                    s.facts = []
                    npaths += one(ctx, e, fn, s, R, inst, alg, special, acc, args_for(fn, vec, n, pos, cvp, off),
                                  vec, i, er, n, off, w, rem, D, b.id)
        ctx.instances[R] = npaths
        if npaths == 0:
            raise AnchorLost(inst + ': no analysable path')
    except Unsupported as u:
        ctx.maybe(R, inst, loc, f'outside the analysed fragment: {u}')
    ctx.account(e)


def one(ctx, e, fn, s0, R, inst, alg, special, acc, args, vec, i, er, n, off, w, rem, D, bid):
    names = {}
    outs = e.call_fn(s0, fn, args)
    cnt = 0
    for why, d in e.dead:
        pass
    for o in outs:
        o.user.pop('_pend', None)
        cnt += 1
        loc = ctx.locof(fn)
        # ---- window
        for ev in o.ev:
            if ev[0] == 'bidx' and ev[1] == bid:
                good = o.poly.entails('ge', ev[2]) and o.poly.entails('ge', w - ev[2] - 1)
                if not good:
                    # bits at a later iteration were checked on entry to it
                    m = sat(o, [('ge', ev[2] - w)])
                    if m is None:
                        good = True
                    elif m == 'unknown':
                        ctx.maybe(R + '.window', inst, ev[4], f'bound of index {ev[2]} not decided')
                        continue
                    ctx.judge(R + '.window', inst, good, o, ev[4],
                              f'reads the characteristic vector at {ev[2]}, outside its {w} entries', dict(witness=show(m)))
                else:
                    ctx.ok(R + '.window', inst, ev[4])
            if ev[0] in ('nullderef', 'uaf', 'doublefree', 'gwrite'):
                ctx.judge(R + '.effects', inst, False, o, ev[-1], f'{ev[0]} of {ev[1]} while computing a transition')
            if ev[0] == 'write':
                root = o.root(ev[1])
                if o.meta(ev[1])[0] == 'sym' and root in ('position', 'cv'):
                    ctx.judge(R + '.effects', inst, False, o, ev[-1], f'modifies the {root} it is given')
        sq = o.models.get((vec, 0))
        if not isinstance(sq, Seq) or not (sq.rem().is_const() and sq.rem().c == 0):
            ctx.maybe(R, inst, loc, f'result vector not resolved ({sq})')
            continue
        # ---- freshness
        ptrs = []
        bad = False
        for it in sq.items:
            p = o.mem.get((it, 0))
            p = o.norm(p) if isinstance(p, Ptr) else p
            if not isinstance(p, Ptr) or p.obj is None:
                ctx.judge(R + '.fresh', inst, False, o, loc, f'returns a pointer that is no position ({p})')
                bad = True
                break
            ptrs.append(p)
        if bad:
            continue
        objs = [p.obj for p in ptrs]
        news = [ev[1] for ev in o.ev if ev[0] == 'new' and ev[1] not in o.freed]
        ctx.judge(R + '.fresh', inst, len(set(objs)) == len(objs) and all(x in news for x in objs), o, loc,
                  'a returned position is not a distinct new allocation')
        leak = [x for x in news if x not in objs and not held(o, x, objs)]
        ctx.judge(R + '.fresh', inst, not leak, o, loc, 'an allocated position is neither returned nor freed')
        if any(x in o.freed for x in objs):
            ctx.judge(R + '.fresh', inst, False, o, loc, 'returns a freed position')
            continue
        # ---- values
        states = [(o, [])]
        for p in ptrs:
            nx = []
            for s, l in states:
                for s2, a, b_, c in read_pos(ctx, e, s, p, acc):
                    t = s2.eval(c)
                    if t is None:
                        raise Unsupported('special flag not resolved')
                    nx.append((s2, l + [(a, b_, t)]))
            states = nx
        for s, ps in states:
            for p in ptrs:
                for q in call1(e, s, acc['next'], [p]):
                    ctx.judge(R + '.fresh', inst, q.eval(('isnull', q.ret)) is True, q, loc, 'a new position is already linked to another')
            sound(ctx, s, R, inst, loc, alg, special, ps, i, er, n, off, rem, bid)
            complete(ctx, s, R, inst, loc, alg, special, ps, i, er, n, off, rem, D, bid)
    return cnt


def held(o, x, objs):
    return False


def bitfact(s, bid, idx):
    return s.eval(('bit', bid, idx))


def pstr(p, i, er):
    return f'(i{"+" if True else ""}{p[0] - i}, e+{p[1] - er}{", special" if p[2] else ""})'


def known_true_bits(s, bid):
    return [a[2] for a, v in s.atoms.items() if a[0] == 'bit' and a[1] == bid and v] + \
        [f[2] for f in s.foralls if f[0] == 'bit' and f[1] == bid and f[4]]


def viol(ctx, s, rule, inst, loc, extra, msg, detail=None):
    """obligation: extra must be inconsistent with s"""
    m = sat(s, extra)
    if m is None:
        return True
    if m == 'unknown':
        ctx.maybe(rule, inst, loc, msg)
        return False
    ctx.judge(rule, inst, False, s, loc, msg, dict(detail or {}, witness=show(m)))
    return False


def sound(ctx, s, R, inst, loc, alg, special, ps, i, er, n, off, rem, bid):
    rule = R + '.sound'
    h = i - off
    for (a, f, t) in ps:
        d = a - i
        c = f - er
        lab = pstr((a, f, t), i, er)
        alts = []          # list of alternatives; each a conjunction that makes the position unjustified
        good = True
        good &= viol(ctx, s, rule, inst, loc, [('ge', f - n - 1)], f'{lab} exceeds the maximum distance')
        good &= viol(ctx, s, rule, inst, loc, [('ge', d - rem - 1)], f'{lab} lies beyond the end of the query term')
        good &= viol(ctx, s, rule, inst, loc, [('ge', -d - 1)], f'{lab} moves backwards')
        tb = known_true_bits(s, bid)
        if not special and not t:
            # d == 0 : cost >= 1
            good &= viol(ctx, s, rule, inst, loc, [('eq', d), ('ge', -c)], f'{lab}: an insertion must cost one error')
            if alg == 'MERGE_AND_SPLIT':
                good &= viol(ctx, s, rule, inst, loc, [('ge', d - 2), ('ge', d - 2 - c)], f'{lab}: cheaper than any merge or deletion')
                lim = [('eq', d - 1), ('ge', -c)]
            else:
                good &= viol(ctx, s, rule, inst, loc, [('ge', d - 1), ('ge', d - 2 - c)], f'{lab}: cheaper than any deletion')
                lim = [('ge', d - 1), ('ge', d - 1 - c)]
            # cost d-1 needs a matching character among the d skipped ones
            cases = [[]]
            for idx in tb:
                j = idx - h
                # bit at j justifies when 0 <= j < d : unjustified if j < 0 or j >= d
                cases = [x + [y] for x in cases for y in (('ge', -j - 1), ('ge', j - d))]
                if len(cases) > 64:
                    break
            for x in cases:
                good &= viol(ctx, s, rule, inst, loc, lim + x,
                             f'{lab} is returned as a match although no compared character is known to match')
        elif not special and t:
            need = 2 if alg == 'TRANSPOSITION' else 1
            good &= viol(ctx, s, rule, inst, loc, [('ge', d - c)], f'{lab}: starting the special operation must cost one error')
            good &= viol(ctx, s, rule, inst, loc, [('ge', d + need - 1 - rem)], f'{lab}: too few characters remain for the special operation')
            if alg == 'TRANSPOSITION':
                cases = [[]]
                for idx in tb:
                    j = idx - h
                    cases = [x + [y] for x in cases for y in (('ge', j - d - 2), ('ge', d - j))]
                    if len(cases) > 64:
                        break
                for x in cases:
                    good &= viol(ctx, s, rule, inst, loc, x, f'{lab} starts a transposition although the next character is not known to match')
            if alg == 'STANDARD':
                ctx.judge(rule, inst, False, s, loc, f'{lab}: standard distance has no special positions')
        elif special and not t:
            k = 2 if alg == 'TRANSPOSITION' else 1
            good &= viol(ctx, s, rule, inst, loc, [('ge', k - 1 - d)], f'{lab} leaves the special operation unfinished')
            good &= viol(ctx, s, rule, inst, loc, [('ge', d - k), ('ge', d - k - c - 1)], f'{lab}: cheaper than completing the special operation')
            if alg == 'TRANSPOSITION':
                cases = [[]]
                for idx in tb:
                    j = idx - h
                    cases = [x + [y] for x in cases for y in (('ge', j - 1), ('ge', -j - 1))]
                    if len(cases) > 64:
                        break
                for x in cases:
                    good &= viol(ctx, s, rule, inst, loc, x, f'{lab} completes a transposition although the character does not match')
        else:
            ctx.judge(rule, inst, False, s, loc, f'{lab}: a special position must not lead to another')
            good = False
        if good:
            ctx.ok(rule, inst, loc, lab)


def not_sub(alg, p, r):
    """alternatives (each a conjunction) under which p does NOT subsume r"""
    (a, f, t), (b, g, u) = p, r
    if t and not u:
        return [[]]
    if t and u and alg == 'TRANSPOSITION':
        return [[('ge', a - b - 1)], [('ge', b - a - 1)], [('ge', f - g - 1)]]
    if u and not t:
        # strictly fewer errors needed
        if alg == 'TRANSPOSITION':
            return [[('ge', f - g)],
                    [('ge', a - b - 1), ('ge', a - b - 1 - (g - f) - 1)],
                    [('ge', b - a), ('ge', b - a + 1 - (g - f) - 1)]]
        return [[('ge', f - g)], [('ge', a - b - (g - f) - 1)], [('ge', b - a - (g - f) - 1)]]
    return [[('ge', a - b - (g - f) - 1)], [('ge', b - a - (g - f) - 1)]]


def complete(ctx, s, R, inst, loc, alg, special, ps, i, er, n, off, rem, D, bid):
    rule = R + '.complete'
    h = i - off
    reqs = []      # (label, position, guard constraints, list of (bit index) required true)
    j = Lin.var('jj')
    if not special:
        reqs.append(('insertion', (i, er + 1, False), [('ge', n - er - 1)], []))
        reqs.append(('substitution', (i + 1, er + 1, False), [('ge', n - er - 1), ('ge', rem - 1)], []))
        reqs.append(('match after skipped characters', (i + j + 1, er + j, False),
                     [('ge', j), ('ge', n - er - j), ('ge', rem - j - 1)], [h + j]))
        if alg == 'TRANSPOSITION':
            reqs.append(('start of a transposition', (i, er + 1, True), [('ge', n - er - 1), ('ge', rem - 2)], [h + 1]))
        if alg == 'MERGE_AND_SPLIT':
            reqs.append(('merge', (i + 2, er + 1, False), [('ge', n - er - 1), ('ge', rem - 2)], []))
            reqs.append(('start of a split', (i, er + 1, True), [('ge', n - er - 1), ('ge', rem - 1)], []))
    elif alg == 'TRANSPOSITION':
        reqs.append(('end of a transposition', (i + 2, er, False), [], [h]))
    else:
        reqs.append(('end of a split', (i + 1, er, False), [], []))
    for lab, r, guard, bits in reqs:
        # the bits required true must not contradict what the path knows to be false
        cases = [list(guard)]
        for ix in bits:
            for a, v in s.atoms.items():
                if a[0] == 'bit' and a[1] == bid and not v:
                    cases = [c + [('ne', a[2] - ix)] for c in cases]
            for f in s.foralls:
                if f[0] == 'bit' and f[1] == bid and not f[4]:
                    cases = [c + [y] for c in cases for y in (('ge', f[2] - ix - 1), ('ge', ix - f[3]))]
        good = True
        for c in cases:
            if not sat_quick(s, c):
                continue
            combos = [c]
            for p in ps:
                ns = not_sub(alg, p, r)
                nc = []
                for x in combos:
                    for y in ns:
                        z = x + y
                        if sat_quick(s, z):
                            nc.append(z)
                combos = nc
                if not combos:
                    break
            for z in combos:
                m = sat(s, z)
                if m is None:
                    continue
                good = False
                got = ', '.join(pstr(p, i, er) for p in ps) or 'nothing'
                msg = f'{lab} is missed: {pstr(r, i, er)} is neither returned nor subsumed; returned {got}'
                if m == 'unknown':
                    ctx.maybe(rule, inst, loc, msg)
                else:
                    ctx.judge(rule, inst, False, s, loc, msg, dict(witness=show(m)))
                break
            if not good:
                break
        if good:
            ctx.ok(rule, inst, loc, lab)


def sat_quick(s, extra):
    p = s.poly
    for k, l in extra:
        p = p.add(k, l)
    return not p.unsat()
