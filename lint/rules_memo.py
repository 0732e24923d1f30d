"""The memoised distance functions: values, memo and locking."""
import itertools
from functools import lru_cache
from common import *
from lists import *
from rules_dict import guard
from rules_eq import text, unfold
from irparse import int_ty

MAKE = {'STANDARD': 'make_standard', 'TRANSPOSITION': 'make_transposition', 'MERGE_AND_SPLIT': 'make_merge_and_split'}
CLS = {'STANDARD': 'StandardDistance', 'TRANSPOSITION': 'TranspositionDistance', 'MERGE_AND_SPLIT': 'MergeAndSplitDistance'}


def spec(alg, v, w, eq):
    """distance of two spelled texts by the textbook definition; eq(i, j): v[i] == w[j]"""
    n, m = len(v), len(w)
    D = [[0] * (m + 1) for _ in range(n + 1)]
    for i in range(n, -1, -1):
        for j in range(m, -1, -1):
            if i == n or j == m:
                D[i][j] = (n - i) + (m - j)
                continue
            c = [D[i + 1][j] + 1, D[i][j + 1] + 1, D[i + 1][j + 1] + (0 if eq(i, j) else 1)]
            if alg == 'TRANSPOSITION' and i + 1 < n and j + 1 < m and eq(i, j + 1) and eq(i + 1, j):
                c.append(D[i + 2][j + 2] + 1)
            if alg == 'MERGE_AND_SPLIT':
                if j + 1 < m:
                    c.append(D[i + 1][j + 2] + 1)
                if i + 1 < n:
                    c.append(D[i + 2][j + 1] + 1)
            D[i][j] = min(c)
    return D[0][0]


def chars(s):
    if not isinstance(s, Str) or not all(p[0] == 'chr' for p in s.parts):
        raise Unsupported('text not spelled')
    return [p[1] for p in s.parts]


def spec_on(st, alg, v, w):
    """the distance on this path: the equalities among characters are decided"""
    memo = {}

    def eq(i, j):
        if (i, j) not in memo:
            memo[i, j] = st.decide(simp(('cmp', 'eq', v[i] - w[j])))
        return memo[i, j]
    for i in range(len(v)):
        for j in range(len(w)):
            eq(i, j)
    return spec(alg, v, w, eq)


def spec_states(st, alg, v, w):
    out, work = [], [st.copy()]
    while work:
        s = work.pop()
        try:
            out.append((s, spec_on(s, alg, v, w)))
        except NeedFork as nf:
            t = s.copy()
            if s.assume(nf.cond):
                work.append(s)
            if t._assume_neg(nf.cond):
                work.append(t)
    return out


def setup(ctx, alg):
    make = ctx.prog.find(r'^levlint::' + MAKE[alg] + r'\(')
    callf = ctx.prog.find(r'^levlint::call_between\(')
    opf = ctx.prog.find(r'^levlint::call_operator\(')
    if not make or not callf:
        raise AnchorLost(CLS[alg])
    return make[0], callf[0], opf[0]


def rec_hook(alg):
    rx = re.compile(r'^liblevenshtein::distance::' + CLS[alg] + r'::between\(')

    def h(e, st, ins, dem, a):
        k = st.user.get('depth', 0)
        if k == 0:
            st.user['depth'] = 1
            return NotImplemented
        v, w = e.models.str_at(st, a[1], ins), e.models.str_at(st, a[2], ins)
        d = spec_on(st, alg, chars(v), chars(w))
        st.ev.append(('rec', v, w, e.where(st, ins)))
        return K(d)
    return rx, h


def check_value(ctx, alg, lens):
    """between(v, w) is the distance, given that it is for the pairs it recurs on; asked
    again, in either order, or for other texts, the memo gives the right answer"""
    R, inst = f'R.distance[{alg}]', CLS[alg]
    make, callf, opf = setup(ctx, alg)
    f_btw = ctx.prog.find(r'^liblevenshtein::distance::' + CLS[alg] + r'::between\(')
    if not f_btw:
        raise AnchorLost(CLS[alg] + '::between')
    loc = ctx.locof(f_btw[0])
    cnt = [0]

    def ask(e, st, fn, d, v, w, what):
        out = []
        st.user['depth'] = 0
        for o in call1(e, st, fn, [d, v[0], w[0]]):
            cnt[0] += 1
            if not memsafety(ctx, R, inst, o):
                continue
            for o2, want in spec_states(o, alg, v[1], w[1]):
                r = e.lin(o2, o2.ret)
                if not ctx.judge(R, inst, o2.poly.entails('eq', r - want), o2, loc,
                                 f'{what} the distance computed is not the true one ({r}, not {want})', dict(lengths=str(lens))):
                    continue
                lk(o2)
                out.append(o2)
        return out

    def lk(o):
        held = []
        for ev in o.ev:
            if ev[0] == 'lock':
                ctx.judge(R + '.lock', inst, ev[2] not in held, o, ev[-1], 'a lock is taken that is already held')
                held.append(ev[2])
            elif ev[0] == 'unlock' and ev[2] in held:
                held.remove(ev[2])
            elif ev[0] == 'rec':
                ctx.judge(R + '.lock', inst, not held, o, ev[-1], 'the computation recurs while a lock is held')
        ctx.judge(R + '.lock', inst, not held, o, loc, 'a lock is still held on return')

    def run(l1, l2):
        e = ctx.engine(max_states=60000, hooks=[rec_hook(alg)])
        e.peel = max(l1 + (l2 or ())) + 4
        st = State()
        st.objs['dist'] = ('heap', 'dist', 'dist')
        st = one(e, st, make, [Ptr('dist', 0)])
        d = st.norm(st.ret)
        v, w = text(e, st, 'v', l1[0]), text(e, st, 'w', l1[1])
        st.ev = []
        for o in ask(e, st, callf, d, v, w, 'the first time,'):
            if l2 is None:
                continue
            o.ev = []
            if l2 == ():
                for o2 in ask(e, o.copy(), callf, d, w, v, 'asked again in the other order,'):
                    pass
                ask(e, o, opf, d, v, w, 'asked again,')
            else:
                x, y = text(e, o, 'x', l2[0]), text(e, o, 'y', l2[1])
                for o2 in ask(e, o, callf, d, x, y, 'after other texts,'):
                    if sum(l1) + sum(l2) <= 4:
                        o2.ev = []
                        ask(e, o2, opf, d, v, w, 'asked again after other texts,')
        dead_check(ctx, e, R, inst)
        ctx.account(e)
    guard(R, inst, ctx, lambda: [run(*x) for x in lens])
    ctx.instances[f'{R}{len(lens)}'] = cnt[0]


# ------------------------------------------------------------------ texts of any length
def strval(env, s):
    """the concrete text an abstract one denotes"""
    out = []
    for p in s.parts:
        if p[0] == 'chr':
            out.append(linval(env, p[1]))
        else:
            o, n = linval(env, p[2]), linval(env, p[3])
            t = env['tail'][p[1]]
            if o < 0 or n < 0 or o + n > len(t):
                raise KeyError('text')
            out += t[o:o + n]
    return tuple(out)


def linval(env, l):
    r = l.c
    for v, c in l.t:
        x = env['val'].get(v)
        if x is None:
            x = env['val'][v] = varval(env, NAMES[v] if isinstance(v, int) else v)
        r += c * x
    return r


def varval(env, n):
    if n[0] == 'len' and n[1] in env['tail']:
        return len(env['tail'][n[1]])
    if n[0] == 'ch' and n[1] in env['tail']:
        i = linval(env, n[2])
        t = env['tail'][n[1]]
        if 0 <= i < len(t):
            return t[i]
    if n[0] == 'distance':
        return env['dist'](strval(env, n[1]), strval(env, n[2]))
    if n[0] == 'strcmp':
        a, b = [tuple(c & 255 for c in strval(env, x)) for x in n[1:]]
        return (a > b) - (a < b)
    raise KeyError(n)


@lru_cache(None)
def true_distance(alg, v, w):
    return spec(alg, v, w, lambda i, j: v[i] == w[j])


@lru_cache(None)
def some_texts(kmax):
    """short texts over three letters, longer ones over two"""
    out = [()]
    for k in range(1, kmax + 1):
        out += [t for t in itertools.product((97, 98, 99) if k < kmax else (97, 98), repeat=k)]
    return out


def witness(st, alg, v, w, ret, kmax=5):
    """two texts on this path for which ret is not their distance.  Bounds on lengths that
    only longer texts meet are left out: a bound is a number somebody chose, and what
    happens past it does not depend on it being that number"""
    p = st.poly
    n1, n2 = v[1].parts, w[1].parts
    k1, k2 = sum(x[0] == 'chr' for x in n1), sum(x[0] == 'chr' for x in n2)
    bounds = set()
    for g in p.ges:
        if abs(g.c) >= 6 and g.t and all((NAMES[x] if isinstance(x, int) else x)[0] == 'len' for x, _ in g.t):
            bounds.add(g)
    def letters(l):
        return all((NAMES[x] if isinstance(x, int) else x)[0] in ('v', 'w') for x, _ in l.t)
    easy = [[x for x in xs if letters(x)] for xs in (p.nes, p.eqs, p.ges)]
    hard = [[x for x in xs if not letters(x) and x not in bounds] for xs in (p.nes, p.eqs, p.ges)]
    for a in some_texts(kmax):
        if len(a) < k1 or len(a) > k1 and len(n1) == k1:
            continue
        for b in some_texts(kmax):
            if len(b) < k2 or len(b) > k2 and len(n2) == k2:
                continue
            env = dict(tail={}, val={}, dist=lambda x, y: true_distance(alg, x, y))
            for txt, parts, k in ((a, n1, k1), (b, n2, k2)):
                for j in range(k):
                    (x, _), = parts[j][1].t
                    env['val'][x] = txt[j]
                if len(parts) > k:
                    env['tail'][parts[k][1]] = txt[k:]
            try:
                if any(any(linval(env, x) == 0 for x in c[0]) or any(linval(env, x) for x in c[1]) or
                       any(linval(env, x) < 0 for x in c[2]) for c in (easy, hard)):
                    continue
                for c, val in st.atoms.items():
                    if c[0] != 'atom' or c[1][0] != 'long history':
                        raise KeyError(c)
                if linval(env, ret) != true_distance(alg, a, b):
                    return a, b
            except KeyError:
                return None
    return None


def check_step(ctx, alg):
    """two texts that differ within their first two characters, the rest of any length: the
    distance is one more than the least one of what a single edit leaves"""
    R, inst = f'R.distance[{alg}].step', CLS[alg]
    make, callf, opf = setup(ctx, alg)
    f_btw = ctx.prog.find(r'^liblevenshtein::distance::' + CLS[alg] + r'::between\(')
    if not f_btw:
        raise AnchorLost(CLS[alg] + '::between')
    loc = ctx.locof(f_btw[0])
    cnt, tries = [0], [0]
    rx = rec_hook(alg)[0]

    def dist(e, st, a, b):
        if not a.parts or not b.parts:
            return e.models.slen(a if a.parts else b)
        if repr(a) > repr(b):
            a, b = b, a
        d = Lin.var(('distance', a, b))
        st.poly = st.poly.add('ge', d)
        for x, y in ((a, b), (b, a)):
            st.poly = st.poly.add('ge', d - e.models.slen(x) + e.models.slen(y))
        return d

    def h(e, st, ins, dem, a):
        if not st.user.get('depth'):
            st.user['depth'] = 1
            return NotImplemented
        v, w = e.models.str_at(st, a[1], ins), e.models.str_at(st, a[2], ins)
        st.ev.append(('rec', v, w, e.where(st, ins)))
        d = dist(e, st, v, w)
        st.poly = st.poly.add('ge', K(1 << 62) - d)
        return d

    def words(e, st, name, k, tail):
        cs = [e.symbol(st, (name, j), int_ty(8)) for j in range(k)]
        parts = [('chr', c) for c in cs]
        for c in cs:
            st.poly = st.poly.add('ge', c + 128).add('ge', K(127) - c)
        if tail:
            parts += list(e.models.symstr(st, ('tail', name)).parts)
            st.poly = st.poly.add('ge', parts[-1][3] - 1)
        o = st.new_obj('alloca', name)
        st.models[(o, 0)] = Str(parts)
        return Ptr(o, 0), Str(parts)

    def cut(s, k):
        return Str(s.parts[k:])

    def run(k1, t1, k2, t2, same):
        e = ctx.engine(max_states=60000, hooks=[(rx, h)])
        e.peel = 6
        st = State()
        st.objs['dist'] = ('heap', 'dist', 'dist')
        st = one(e, st, make, [Ptr('dist', 0)])
        d = st.norm(st.ret)
        v, w = words(e, st, 'v', k1, t1), words(e, st, 'w', k2, t2)
        for j in range(same):
            st.poly = st.poly.add('eq', v[1].parts[j][1] - w[1].parts[j][1])
        st.poly = st.poly.add('ne', v[1].parts[same][1] - w[1].parts[same][1])
        x, y = cut(v[1], same), cut(w[1], same)
        need = [(cut(x, 1), y), (x, cut(y, 1)), (cut(x, 1), cut(y, 1))]
        l1, l2 = k1 - same, k2 - same
        if alg == 'TRANSPOSITION' and l1 > 1 and l2 > 1:
            swap = [('cmp', 'eq', x.parts[0][1] - y.parts[1][1]), ('cmp', 'eq', x.parts[1][1] - y.parts[0][1])]
        else:
            swap = None
        if alg == 'MERGE_AND_SPLIT':
            need += [(cut(x, 1), cut(y, 2))] if l2 > 1 else []
            need += [(cut(x, 2), cut(y, 1))] if l1 > 1 else []
        st.ev = []
        st.user['depth'] = 0
        for o in call1(e, st, callf, [d, v[0], w[0]]):
            cnt[0] += 1
            if not memsafety(ctx, R, inst, o):
                continue
            from rules_eq import unfold
            for o2, bs in unfold(o, swap or []):
                n = need + ([(cut(x, 2), cut(y, 2))] if swap and all(bs) else [])
                ds = [dist(e, o2, a, b) for a, b in n]
                r = e.lin(o2, o2.ret)
                if o2.poly.unsat():
                    continue
                if all(o2.poly.entails('ge', q + 1 - r) for q in ds) and any(o2.poly.entails('eq', q + 1 - r) for q in ds):
                    ctx.ok(R, inst, loc)
                    continue
                tries[0] += 1
                wit = witness(o2, alg, v, w, r) if o2.exact() and tries[0] <= 30 else None
                if wit:
                    ctx.bad(R, inst, loc, 'the distance of two texts is not one more than the least distance that one edit leaves',
                            dict(texts=[''.join(map(chr, t)) for t in wit], path=o2.facts[-25:]))
                else:
                    ctx.maybe(R, inst, loc, 'the distance of two texts is not one more than the least distance that one edit leaves')
                break
        dead_check(ctx, e, R, inst)
        ctx.account(e)

    def allruns():
        for s in (0, 1):
            for k1, t1 in ((1, False), (2, False), (2, True)):
                for k2, t2 in ((1, False), (2, False), (2, True)):
                    run(k1 + s, t1, k2 + s, t2, s)
    guard(R, inst, ctx, allruns)
    ctx.instances[R] = cnt[0]


VALUES = {
    'short': [((0, 0), ()), ((0, 1), ()), ((2, 0), ()), ((1, 1), ()), ((1, 2), ()), ((2, 1), ()), ((2, 2), ()),
              ((1, 1), (1, 1)), ((0, 1), (1, 1)), ((1, 2), (0, 1)), ((1, 0), (0, 2))],
    'mid': [((3, 1), ()), ((1, 3), ()), ((3, 2), ()), ((2, 3), ()), ((1, 1), (1, 2))],
    'long': [((3, 3), ())],
}


def check_distance(ctx, alg, part='short'):
    ls = VALUES[part]
    check_value(ctx, alg, [((a), b) for a, b in ls])


def check_lock(ctx, alg):
    """every location that concurrent computations share and some computation writes is
    only written under one lock held exclusively and only read under that lock"""
    R, inst = f'R.lock[{alg}]', CLS[alg]
    make, callf, opf = setup(ctx, alg)
    f_btw = ctx.prog.find(r'^liblevenshtein::distance::' + CLS[alg] + r'::between\(')
    loc = ctx.locof(f_btw[0]) if f_btw else ''
    cnt = [0]
    acc = {}      # location -> [(mode, held, where)]

    def scan(o, mine):
        held = []
        for ev in o.ev:
            k, w = ev[0], ev[-1]
            if k == 'lock':
                held.append((str(ev[2]), ev[1], ev[2].obj))
            elif k == 'unlock':
                held = [h for h in held if h[0] != str(ev[2])]
            elif k in ('find', 'iter', 'insert', 'erase', 'clear', 'csize') and ev[1][0] == 'dist':
                new = k in ('erase', 'clear') or k == 'insert' and ev[4]
                acc.setdefault('the memo', []).append(('w' if new else 'r', tuple(held), w))
            elif k in ('eread', 'write') and (o.meta(ev[1])[:2] == ('elem', 'mel') or isinstance(ev[1], tuple) and ev[1][0] == 'mel'):
                acc.setdefault('a memo entry', []).append(('w' if k == 'write' else 'r', tuple(held), w))
            elif k in ('read', 'write') and ev[1] == 'dist' and ('dist', ev[2]) not in o.models:
                acc.setdefault(f'a member (offset {ev[2]})', []).append(('w' if k == 'write' else 'r', tuple(held), w))
            elif k in ('gwrite', 'gread'):
                acc.setdefault(f'the global {ev[1]}', []).append(('w' if k == 'gwrite' else 'r', tuple(held), w))
            elif k == 'rec':
                ctx.judge(R, inst, not held, o, w, 'the computation recurs while a lock is held')
        ctx.judge(R, inst, not held, o, loc, 'a lock is still held on return')
        cnt[0] += 1

    def run(l1):
        e = ctx.engine(max_states=60000, hooks=[rec_hook(alg)])
        e.peel = max(l1) + 4
        st = State()
        st.objs['dist'] = ('heap', 'dist', 'dist')
        st = one(e, st, make, [Ptr('dist', 0)])
        d = st.norm(st.ret)
        v, w = text(e, st, 'v', l1[0]), text(e, st, 'w', l1[1])
        st.user['watchelem'] = True
        st.user['watchread'] = ('dist',)
        st.user['interfere'] = 'dist'
        st.ev = []
        st.user['depth'] = 0
        for o in call1(e, st, callf, [d, v[0], w[0]]):
            scan(o, d)
            o.ev = []
            o.user['depth'] = 0
            for o2 in call1(e, o, opf, [d, v[0], w[0]]):
                scan(o2, d)
        e.dead = []
        ctx.account(e)

    def allruns():
        for l in ((0, 0), (0, 1), (1, 0), (1, 1), (2, 1), (1, 2), (2, 2)):
            run(l)
        for place, xs in sorted(acc.items()):
            ws = [x for x in xs if x[0] == 'w']
            if not ws:
                ctx.ok(R, inst, '', f'{place} is never written')
                continue
            locks = {h[0] for x in xs for h in x[1]}
            if place.startswith('the global'):
                locks = {h[0] for x in xs for h in x[1] if str(h[2]).startswith('g:')}

            def covers(m, x):
                return any(h[0] == m and (h[1] == 'excl' or x[0] == 'r') for h in x[1])
            good = [m for m in locks if all(covers(m, x) for x in xs)]
            if good:
                for x in xs:
                    ctx.ok(R, inst, x[2])
                continue
            best = max(locks, key=lambda m: sum(covers(m, x) for x in xs), default=None)
            told = set()
            for x in xs:
                if (best is None or not covers(best, x)) and x[2] not in told:
                    told.add(x[2])
                    ctx.bad(R, inst, x[2], f'{place} is {"written" if x[0] == "w" else "read"} without the lock that protects it'
                            + (' held exclusively' if x[0] == 'w' and x[1] else ''), dict(held=str(x[1])))
    guard(R, inst, ctx, allruns)
    ctx.instances[R] = cnt[0]
