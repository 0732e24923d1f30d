"""Linear forms over symbolic integers and the relational (polyhedral) domain.

Lin   : immutable  c0 + sum ci*xi      (exact integers)
Poly  : a conjunction of constraints  L >= 0, L == 0, L != 0  with an emptiness
        test by Fourier-Motzkin elimination with integer tightening.  Emptiness
        answers are one-sided: `unsat` is definite, "not unsat" means the
        abstract element may be inhabited.
"""
import itertools
from math import gcd

NAMES = []      # variable id -> name
_ids = {}


class Lin:
    __slots__ = ('c', 't', '_h')

    def __init__(self, c=0, t=()):
        self.c = c
        self.t = t            # tuple of (var, coef) sorted by repr
        self._h = None

    @staticmethod
    def var(v):
        i = _ids.get(v)
        if i is None:
            i = len(NAMES)
            _ids[v] = i
            NAMES.append(v)
        return Lin(0, ((i, 1),))

    def __radd__(self, k):
        return self + k

    def __rsub__(self, k):
        return (-self) + k

    def is_const(self):
        return not self.t

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.c, self.t))
        return self._h

    def _comb(self, o, k):
        d = dict(self.t)
        for v, c in o.t:
            n = d.get(v, 0) + k * c
            if n:
                d[v] = n
            else:
                d.pop(v, None)
        return Lin(self.c + k * o.c, tuple(sorted(d.items())))

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.c + o, self.t)
        return self._comb(o, 1)

    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.c - o, self.t)
        return self._comb(o, -1)

    def __neg__(self):
        return self * -1

    def __mul__(self, k):
        if k == 0:
            return Lin(0)
        return Lin(self.c * k, tuple((v, c * k) for v, c in self.t))

    def vars(self):
        return [v for v, _ in self.t]

    def subst(self, m):
        """replace variables by Lins"""
        r = Lin(self.c)
        for v, c in self.t:
            r = r + (m[v] * c if v in m else Lin(0, ((v, c),)))
        return r

    def __repr__(self):
        s = []
        for v, c in self.t:
            n = vname(v)
            s.append(('+' if c > 0 else '-') + (n if abs(c) == 1 else f'{abs(c)}*{n}'))
        if self.c or not s:
            s.append(f'{self.c:+d}')
        r = ''.join(s)
        return r[1:] if r.startswith('+') else r


def _vkey(kv):
    return kv[0]


def vname(v):
    v = NAMES[v] if isinstance(v, int) else v
    return v if isinstance(v, str) else str(v)


def K(n):
    return Lin(n)


def norm_ge(l):
    """tighten L>=0 over the integers"""
    if not l.t:
        return l
    g = 0
    for _, c in l.t:
        g = gcd(g, abs(c))
    if g > 1:
        return Lin(l.c // g, tuple((v, c // g) for v, c in l.t))
    return l


LIMIT = 4000


def fm_unsat(ges, eqs):
    """True if the system {ge>=0} u {eq==0} has no integer solution (one-sided)."""
    ges = list(ges)
    eqs = list(eqs)
    # eliminate equalities with unit coefficients by substitution
    while eqs:
        e = eqs.pop()
        if not e.t:
            if e.c != 0:
                return True
            continue
        g = 0
        for _, c in e.t:
            g = gcd(g, abs(c))
        if e.c % g:
            return True
        if g > 1:
            e = Lin(e.c // g, tuple((v, c // g) for v, c in e.t))
        piv = None
        for v, c in e.t:
            if abs(c) == 1:
                piv = (v, c)
                break
        if piv is None:
            ges.append(e)
            ges.append(-e)
            continue
        v, c = piv
        # c*v + rest == 0 -> v = -rest/c
        rest = e - Lin(0, ((v, c),))
        rep = rest * (-c)
        m = {v: rep}
        ges = [g_.subst(m) if any(x == v for x, _ in g_.t) else g_ for g_ in ges]
        eqs = [g_.subst(m) if any(x == v for x, _ in g_.t) else g_ for g_ in eqs]
    best = {}
    for g in ges:
        g = norm_ge(g)
        if not g.t:
            if g.c < 0:
                return True
            continue
        o = best.get(g.t)
        if o is None or g.c < o:
            best[g.t] = g.c
    cur = best
    while cur:
        # contradiction check between t and -t
        for t, c in cur.items():
            nt = tuple((v, -k) for v, k in t)
            if nt in cur and c + cur[nt] < 0:
                return True
        # choose var with least pos*neg
        cnt = {}
        for t in cur:
            for v, k in t:
                a = cnt.setdefault(v, [0, 0])
                a[0 if k > 0 else 1] += 1
        v = min(cnt, key=lambda x: (cnt[x][0] * cnt[x][1] - cnt[x][0] - cnt[x][1], _vkey((x, 0))))
        pos, neg, rest = [], [], {}
        for t, c in cur.items():
            k = next((k for x, k in t if x == v), 0)
            if k > 0:
                pos.append((k, Lin(c, t)))
            elif k < 0:
                neg.append((-k, Lin(c, t)))
            else:
                rest[t] = c
        for kp, p in pos:
            for kn, n in neg:
                r = norm_ge(p * kn + n * kp)
                if not r.t:
                    if r.c < 0:
                        return True
                    continue
                o = rest.get(r.t)
                if o is None or r.c < o:
                    rest[r.t] = r.c
        if len(rest) > LIMIT:
            return False
        cur = rest
    return False


class Unproved:
    """false, and which constraint would have to be impossible"""
    __slots__ = ('kind', 'l')

    def __init__(self, kind, l):
        self.kind, self.l = kind, l

    def __bool__(self):
        return False

    def __eq__(self, o):
        return o is False or isinstance(o, Unproved)

    __hash__ = None


class Poly:
    __slots__ = ('ges', 'eqs', 'nes', '_cache')

    def __init__(self, ges=(), eqs=(), nes=()):
        self.ges, self.eqs, self.nes = tuple(ges), tuple(eqs), tuple(nes)
        self._cache = {}

    def add(self, kind, l):
        if kind == 'ge':
            l = norm_ge(l)
            if not l.t and l.c >= 0 or l in self.ges:
                return self
            return Poly(self.ges + (l,), self.eqs, self.nes)
        if kind == 'eq':
            if not l.t and l.c == 0 or l in self.eqs:
                return self
            return Poly(self.ges, self.eqs + (l,), self.nes)
        if l in self.nes:
            return self
        return Poly(self.ges, self.eqs, self.nes + (l,))

    def _slice(self, seedvars):
        vs = set(seedvars)
        ges, eqs = list(self.ges), list(self.eqs)
        pg, pe = [], []
        changed = True
        while changed:
            changed = False
            ng = []
            for g in ges:
                if any(v in vs for v, _ in g.t) or not g.t:
                    pg.append(g)
                    for v, _ in g.t:
                        if v not in vs:
                            vs.add(v)
                            changed = True
                else:
                    ng.append(g)
            ne = []
            for g in eqs:
                if any(v in vs for v, _ in g.t) or not g.t:
                    pe.append(g)
                    for v, _ in g.t:
                        if v not in vs:
                            vs.add(v)
                            changed = True
                else:
                    ne.append(g)
            if len(ng) != len(ges) or len(ne) != len(eqs):
                pass
            ges, eqs = ng, ne
        return pg, pe, vs

    def unsat_with(self, kind, l):
        """is  self /\\ (l kind 0)  empty?"""
        key = (kind, l)
        r = self._cache.get(key)
        if r is None:
            r = self._unsat_with(kind, l)
            self._cache[key] = r
        return r

    def _unsat_with(self, kind, l):
        if not l.t:
            bad = {'ge': l.c < 0, 'eq': l.c != 0, 'ne': l.c == 0}[kind]
            return bad
        if kind == 'ne':
            return self.unsat_with('ge', l - 1) and self.unsat_with('ge', -l - 1)
        ges, eqs, vs = self._slice(l.vars())
        g2, e2 = list(ges), list(eqs)
        (g2 if kind == 'ge' else e2).append(l)
        if fm_unsat(g2, e2):
            return True
        # disequalities: one-level case split on those that touch the slice
        nes = [n for n in self.nes if n.t and all(v in vs for v, _ in n.t)]
        if self._forced(g2, e2, nes, l):
            return True
        return self._ne_split(g2, e2, nes[:4])

    def _forced(self, g, e, nes, l=None):
        """is some disequality refuted by the equalities alone?"""
        if not e or not nes:
            return False
        eqs, nes = list(e), list(nes)
        while eqs:
            q = eqs.pop()
            piv = next(((v, c) for v, c in q.t if abs(c) == 1), None)
            if piv is None:
                continue
            v, c = piv
            m = {v: (q - Lin(0, ((v, c),))) * (-c)}
            eqs = [x.subst(m) if any(y == v for y, _ in x.t) else x for x in eqs]
            ns = []
            for x in nes:
                if any(y == v for y, _ in x.t):
                    x = x.subst(m)
                    if not x.t:
                        if x.c == 0:
                            return True
                        continue
                ns.append(x)
            nes = ns
            if not nes:
                return False
        return False

    def _ne_split(self, g, e, nes):
        if not nes:
            return False
        n = nes[0]
        for side in (n - 1, -n - 1):
            gg = g + [side]
            if not fm_unsat(gg, e) and not self._ne_split(gg, e, nes[1:]):
                return False
        return True

    def entails(self, kind, l):
        if kind == 'ge':
            k, n = 'ge', -l - 1
        elif kind == 'eq':
            if not l.t:
                return l.c == 0
            k, n = 'ne', l
        else:
            k, n = 'eq', l
        return True if self.unsat_with(k, n) else Unproved(k, n)

    def unsat(self):
        if fm_unsat(self.ges, self.eqs):
            return True
        if any(not n.t and n.c == 0 for n in self.nes):
            return True
        if self._forced(None, self.eqs, [n for n in self.nes if n.t]):
            return True
        return self._ne_split(list(self.ges), list(self.eqs), [n for n in self.nes if n.t][:4])


def find_model(ges, eqs, nes=(), budget=1500):
    """an integer assignment satisfying all constraints, or None if none was found.
    Bound propagation plus depth-first choice of small values; used only to turn a
    non-empty abstract element into a concrete witness for the report. Small values are
    tried first."""
    cons = []
    for g in ges:
        g = norm_ge(g)
        if not g.t:
            if g.c < 0:
                return None
            continue
        cons.append(g)
    for e in eqs:
        if not e.t:
            if e.c:
                return None
            continue
        cons.append(e)
        cons.append(-e)
    cons = list(dict.fromkeys(cons))
    vs = set()
    for c in cons:
        vs.update(v for v, _ in c.t)
    for c in nes:
        vs.update(v for v, _ in c.t)
    # constraints that share no variable are solved apart
    up = {v: v for v in vs}

    def root(v):
        while up[v] != v:
            up[v] = up[up[v]]
            v = up[v]
        return v
    for c in itertools.chain(cons, nes):
        if not c.t:
            if c.c == 0 and c in nes:
                return None
            continue
        r = root(c.t[0][0])
        for v, _ in c.t[1:]:
            up[root(v)] = r
    parts = {}
    for v in vs:
        parts.setdefault(root(v), ([], [], set()))[2].add(v)
    for i, cs in enumerate((cons, nes)):
        for c in cs:
            if c.t:
                parts[root(c.t[0][0])][i].append(c)
    out = {}
    for cs, ns, xs in parts.values():
        for box in (24, 300, None):
            m = _search(cs, ns, xs, box, budget)
            if m is not None:
                break
        else:
            return None
        out.update(m)
    return out


def _search(cons, nes, vs, box, budget):
    occ = {v: [] for v in vs}
    for c in cons:
        for v, _ in c.t:
            occ[v].append(c)
    cnt = [0]

    def prop(lo, hi, todo):
        steps = 0
        todo = list(todo)
        inq = set(todo)
        while todo:
            c = todo.pop()
            inq.discard(c)
            steps += 1
            if steps > 40 * len(cons) + 100:
                return True
            unb = 0
            tot = c.c
            un = None
            for v, k in c.t:
                b = hi[v] if k > 0 else lo[v]
                if b is None:
                    unb += 1
                    un = (v, k)
                    if unb > 1:
                        break
                else:
                    tot += k * b
            if unb > 1:
                continue
            if unb == 0 and tot < 0:
                return False
            for v, k in (c.t if unb == 0 else (un,)):
                rest = tot - (k * (hi[v] if k > 0 else lo[v]) if unb == 0 else 0)
                ch = False
                if k > 0:
                    b = -(rest // k)
                    if lo[v] is None or b > lo[v]:
                        lo[v] = b
                        ch = True
                else:
                    b = rest // (-k)
                    if hi[v] is None or b < hi[v]:
                        hi[v] = b
                        ch = True
                if ch:
                    if lo[v] is not None and hi[v] is not None and lo[v] > hi[v]:
                        return False
                    for d in occ[v]:
                        if d not in inq:
                            inq.add(d)
                            todo.append(d)
        return True

    def rec(lo, hi, todo):
        cnt[0] += 1
        if cnt[0] > budget:
            return None
        if not prop(lo, hi, todo):
            return None
        free = [v for v in vs if lo[v] is None or hi[v] is None or lo[v] != hi[v]]
        near = {}
        for n in nes:
            open_ = [v for v, _ in n.t if lo[v] is None or lo[v] != hi[v]]
            if not open_ and n.c + sum(k * lo[v] for v, k in n.t) == 0:
                return None
            if len(open_) == 1:
                near[open_[0]] = near.get(open_[0], 0) + 1
        if not free:
            for c in cons:
                if c.c + sum(k * lo[v] for v, k in c.t) < 0:
                    return None
            return dict(lo)
        v = min(free, key=lambda x: ((hi[x] - lo[x]) if lo[x] is not None and hi[x] is not None else 1 << 70, x))
        cands = []
        if lo[v] is not None:
            cands += [lo[v] + d for d in range(5 + near.get(v, 0))]
        if hi[v] is not None:
            cands += [hi[v] - d for d in range(2 + near.get(v, 0))]
        cands += [0, 1, 2, 3, -1]
        seen = set()
        for x in cands:
            if x in seen or (lo[v] is not None and x < lo[v]) or (hi[v] is not None and x > hi[v]):
                continue
            seen.add(x)
            l2, h2 = dict(lo), dict(hi)
            l2[v] = h2[v] = x
            r = rec(l2, h2, occ[v])
            if r is not None:
                return r
            if cnt[0] > budget:
                return None
        return None
    lo = {v: (-box if box is not None else None) for v in vs}
    hi = {v: (box if box is not None else None) for v in vs}
    return rec(lo, hi, cons)
