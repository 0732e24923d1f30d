"""Rules on the query driver: wiring of the transducers, the traversal of the product of
dictionary and automaton, and what is reported to the caller."""
from common import *
from lists import *
from rules_pt import sat_quick
from rules_tr import prove
from models import Bits
from irparse import int_ty, PTR

RES = {'string': 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>',
       'candidate': 'std::pair<std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>, unsigned long>'}
LIM = 1 << 60


def cls_fn(ctx, cls, targ, meth, params=None, pred=None):
    """method of a class template instantiation"""
    out = []
    for d, l in ctx.prog.by_dem.items():
        p, t, ps = skel(d)
        if p == NS + cls + '::' + meth and "'lambda" not in d and '$_' not in d and d.startswith(NS + cls + '<' + targ + '>::'):
            if pred is None or pred(ps):
                out += l
    if not out:
        raise AnchorLost(f'{cls}<{targ}>::{meth}')
    return out[0]


class Pipe:
    """analysis of  Transducer<T,R>(root)(term, n).begin(), ++, *, ==, destruction"""

    def __init__(self, ctx, alg, res, edges=(2, 1), peel=3):
        self.ctx, self.alg, self.res = ctx, alg, res
        k = ALGS.index(alg)
        targ = f'(liblevenshtein::Algorithm){k}, {RES[res]}'
        self.f_ctor = cls_fn(ctx, 'Transducer', targ, 'Transducer', pred=lambda ps: 'DawgNode' in ps)
        self.f_call = cls_fn(ctx, 'Transducer', targ, 'operator@call')
        self.f_begin = cls_fn(ctx, 'LazyIterator', RES[res], 'begin')
        self.f_inc = cls_fn(ctx, 'LazyQuery', RES[res], 'operator++')
        self.f_deref = cls_fn(ctx, 'LazyQuery', RES[res], 'operator*')
        self.f_eq = cls_fn(ctx, 'LazyQuery', RES[res], 'operator==')
        self.f_dtor = cls_fn(ctx, 'LazyQuery', RES[res], '~LazyQuery')
        self.f_tdtor = cls_fn(ctx, 'Transducer', targ, '~Transducer')
        self.f_final = ctx.method('DawgNode', 'is_final', '')
        self.f_istr = ctx.method('Intersection', 'str[abi:cxx11]', '')
        self.edges = edges
        H = []
        H.append((re.compile(r'^liblevenshtein::Intersection::Intersection\('), self.h_isect))
        H.append((re.compile(r'^liblevenshtein::Intersection::state\(\) const'), self.h_state))
        H.append((re.compile(r'^liblevenshtein::Intersection::str\[abi:cxx11\]\(\) const'), self.h_str))
        H.append((re.compile(r'^liblevenshtein::DawgNode::for_each_edge\('), self.h_edges))
        H.append((re.compile(r'^liblevenshtein::StateTransition::operator\(\)\('), self.h_trans))
        H.append((re.compile(r'^unsigned long liblevenshtein::distance<'), self.h_dist))
        H.append((re.compile(r'^liblevenshtein::State::~State\('), self.h_sdtor))
        self.e = ctx.engine(max_states=60000, hooks=H)
        self.e.peel = peel
        self.e.cutoff = True
        self.e.rec_limit = 2
        self.swap_state = None

    # ------------------------------------------------------------ hooks
    def h_isect(self, e, st, ins, dem, a):
        # (this, label, node, state, parent)
        st.ev.append(('isect', a[0].obj, e.lin(st, a[1]), st.norm(a[2]), st.norm(a[3]), st.norm(a[4]), e.where(st, ins)))
        return NotImplemented

    def h_state(self, e, st, ins, dem, a):
        if st.user.get('init') == st.norm(a[0]).obj:
            return Ptr('S0', 0)
        return NotImplemented

    def h_str(self, e, st, ins, dem, a):
        p = st.norm(a[1])
        e.models.put(st, a[0], Str([('sub', ('path', p.obj), K(0), Lin.var(('len', ('path', p.obj))))]), ins, ev=False)
        st.poly = st.poly.add('ge', Lin.var(('len', ('path', p.obj)))).add('ge', K(LIM) - Lin.var(('len', ('path', p.obj))))
        st.ev.append(('istr', p.obj, e.where(st, ins)))
        return None

    def h_edges(self, e, st, ins, dem, a):
        node = st.norm(a[0])
        st.ev.append(('foreach', node, e.where(st, ins)))
        depth = 0 if node.obj == 'root' else 1
        m = self.edges[depth]
        fns = [f for f in self.ctx.prog.find(r'^std::function<void \(char, liblevenshtein::DawgNode\*\)>::operator\(\)')]
        if not fns:
            raise Unsupported('edge callback')
        cur, done = [st], []
        for j in range(m + 1):
            nxt = []
            for s in cur:
                c = ('atom', ('edges', node.obj, j))
                r = s.eval(c)
                stop = s.copy()
                if r is not True and j <= m:
                    if r is None:
                        stop._assume_neg(c)
                    done.append(stop)
                if j < m and r is not False:
                    if r is None:
                        s.assume(c)
                    lab = e.symbol(s, ('lab', node.obj, j), int_ty(8))
                    # labels of one node are distinct
                    for q in range(j):
                        s.poly = s.poly.add('ne', lab - Lin.var(('lab', node.obj, q)))
                    tgt = ('tgt', node.obj, j)
                    s.objs[tgt] = ('sym', oname(tgt), tgt)
                    s.atoms[('isnull', tgt)] = False
                    for o in e.call_fn(s, fns[0], [a[1], lab, Ptr(tgt, 0)]):
                        o.user.pop('_pend', None)
                        nxt.append(o)
            cur = nxt
        for o in done:
            e.setres(o, ins, None)
        return done

    def h_trans(self, e, st, ins, dem, a):
        s = st.norm(a[1])
        b = e.models.bits_at(st, a[2], ins)
        st.user['stt'] = st.norm(a[0])
        snap = st.copy()
        k = st.fresh('tr')
        t = st.decide(('atom', ('dies', k)))
        if t:
            r = NULL
        else:
            o = st.fresh('next')
            st.objs[o] = ('heap', o, o)
            st.user['lazyobjs'] = set(st.user.get('lazyobjs', ())) | {o}
            r = Ptr(o, 0)
            st.ev.append(('new', o, None, e.where(st, ins)))
            st2, ptrs, vals = self.headed(st, r)
            st.__dict__.update(st2.__dict__)
        st.ev.append(('trans', s, b, r, snap, e.where(st, ins)))
        return r

    def headed(self, st, p):
        ev, facts = st.ev, st.facts
        st2, ptrs, vals = shape(self.ctx, self.e, st, p, 1, closed=False)
        st2.ev, st2.facts = ev, facts
        st2.poly = st2.poly.add('ge', self.len - vals[0][0])
        st2.user.setdefault('heads', {})
        st2.user['heads'] = dict(st2.user['heads'], **{p.obj: vals[0][0]})
        return st2, ptrs, vals

    def h_dist(self, e, st, ins, dem, a):
        m = re.search(r'Algorithm\)(\d)', dem)
        v = e.symbol(st, ('dist', st.norm(a[0]).obj), int_ty(64))
        st.ev.append(('dist', st.norm(a[0]), e.lin(st, a[1]), v, int(m.group(1)), e.where(st, ins)))
        return v

    def h_sdtor(self, e, st, ins, dem, a):
        p = st.norm(a[0])
        if p.obj in st.freed:
            st.ev.append(('doublefree', p.obj, e.where(st, ins)))
        st.ev.append(('statedtor', p.obj, e.where(st, ins)))
        return None

    # ------------------------------------------------------------ phases
    def start(self):
        e, ctx = self.e, self.ctx
        st = State()
        root = sym_obj(st, 'root')
        st.user['sep'] = {'root', 'S0'}
        tr = st.new_obj('alloca', 'transducer')
        outs = call1(e, st, self.f_ctor, [Ptr(tr, 0), root])
        if len(outs) != 1:
            raise Unsupported('Transducer constructor forks')
        return outs[0], tr, root

    def query(self, arbitrary=True):
        """final states of begin(): (state, query obj)"""
        e = self.e
        st, tr, root = self.start()
        self.ctor_state = st.copy()
        isects = [ev for ev in st.ev if ev[0] == 'isect']
        if len(isects) != 1:
            raise Unsupported('initial intersection not found')
        self.init = isects[0]
        self.term_cell = st.new_obj('alloca', 'term')
        st.models[(self.term_cell, 0)] = e.models.symstr(st, 'term')
        self.len = e.models.slen(st.models[(self.term_cell, 0)])
        st.poly = st.poly.add('ge', K(LIM) - self.len)
        self.n = e.symbol(st, 'n', int_ty(64))
        it = st.new_obj('alloca', 'iterator')
        st.objs[tr] = ('heap', 'the transducer', tr)
        st.ev = []
        outs = call1(e, st, self.f_call, [Ptr(it, 0), Ptr(tr, 0), Ptr(self.term_cell, 0), self.n])
        res = []
        self.initial_states = []
        self.began = [o.copy() for o in outs]
        for o in outs:
            # the caller's string is gone once the expression has been evaluated
            o.models[(self.term_cell, 0)] = e.models.symstr(o, 'a string that has been destroyed')
            if arbitrary:
                o.user['init'] = self.init[1]
                sym_obj(o, 'S0')
                o, ptrs, vals = self.headed(o, Ptr('S0', 0))
            o.ev = []
            o.facts = []
            q = o.new_obj('alloca', 'query')
            self.initial_states.append(o.copy())
            for x in call1(e, o, self.f_begin, [Ptr(q, 0), Ptr(it, 0)]):
                # a query outlives the range it was taken from
                x.freed[it] = 'the range of a query'
                for k in [k for k in x.models if k[0] == it]:
                    if isinstance(x.models[k], Str):
                        x.models[k] = e.models.symstr(x, 'a string that has been destroyed')
                res.append((x, Ptr(q, 0)))
        self.tr = Ptr(tr, 0)
        return res


# ---------------------------------------------------------------- the monitor
class Item:
    def __init__(self, obj, node, state, parent, label, edges):
        self.obj, self.node, self.state, self.parent, self.label = obj, node, state, parent, label
        self.left = edges          # edges not yet followed: [(label, target)]


def edges_of(st, node, m):
    out = []
    for j in range(m):
        if st.atoms.get(('atom', ('edges', node.obj, j))) is True:
            out.append((Lin.var(('lab', node.obj, j)), Ptr(('tgt', node.obj, j), 0)))
        else:
            break
    return out


class Monitor:
    def __init__(self, pipe, R, inst):
        self.p, self.R, self.inst = pipe, R, inst
        self.ctx = pipe.ctx
        self.seen = {}

    def J(self, sub, good, st, where, msg, detail=None):
        return self.ctx.judge(self.R + '.' + sub, self.inst, good, st, where, msg, detail)

    def edges(self, st, node):
        return edges_of(st, node, 4)

    def run(self, st, q):
        """check everything observable up to the current candidate; returns
        ('complete'|'match'|None, state)"""
        p, e = self.p, self.p.e
        ctx = self.ctx
        loc = ctx.locof(p.f_begin)
        init = p.init
        # decide final() of every node met
        items = [Item(init[1], init[3], Ptr('S0', 0), None, None, None)]
        byobj = {init[1]: items[0]}
        dist = {}
        reported = []
        opened = set()
        pend = None            # transition whose result must be wrapped next
        ok = True
        for ev in st.ev:
            k = ev[0]
            if k in ('uaf', 'doublefree', 'nullderef'):
                ok &= self.J('memory', False, st, ev[-1], {'uaf': 'uses freed memory', 'doublefree': 'frees memory twice',
                                                          'nullderef': 'dereferences null'}[k] + f' ({ev[1]})')
            elif k == 'foreach':
                opened.add(ev[1])
            elif k == 'mark':
                reported.append(ev[1])
            elif k == 'trans':
                if pend is not None:
                    ok &= self.J('follow', False, st, pend[-1], 'the state reached over an edge is dropped')
                    return None, st
                pend = None
                cand = [i for i in items if i.state == ev[1]]
                if not cand:
                    ok &= self.J('follow', False, st, ev[-1], 'a transition is taken from a state that is not pending')
                    return None, st
                it = cand[0]
                if it.left is None:
                    it.left = self.edges(st, it.node)
                edge = self.pick(st, it, ev)
                if edge is None:
                    ok &= self.J('follow', False, st, ev[-1], 'an edge is followed twice, or with the wrong character or node')
                    return None, st
                it.left.remove(edge)
                self.ctx.ok(self.R + '.follow', self.inst, ev[-1])
                ok &= self.window(st, it, edge, ev)
                if ev[3].obj is not None:
                    pend = ('want', it, edge, ev[3], ev[-1])
            elif k == 'isect':
                if ev[1] in byobj:
                    continue
                if pend is None:
                    ok &= self.J('follow', False, st, ev[-1], 'a product state is created without a transition')
                    return None, st
                _, it, edge, ns, w = pend
                good = ev[3] == edge[1] and ev[4] == ns and st.poly.entails('eq', ev[2] - edge[0])
                ok &= self.J('follow', good, st, ev[-1], 'the product state does not hold the edge that was followed')
                ok &= self.J('path', ev[5].obj == it.obj, st, ev[-1], 'the product state is linked to the wrong predecessor')
                ni = Item(ev[1], ev[3], ev[4], it, ev[2], None)
                items.append(ni)
                byobj[ev[1]] = ni
                pend = None
            elif k == 'dist':
                ok &= self.J('distance', ev[4] == ALGS.index(p.alg), st, ev[-1], 'the distance of another algorithm is used')
                ok &= self.J('distance', any(i.state == ev[1] for i in items) or (pend and pend[3] == ev[1]), st, ev[-1],
                             'the distance is read off a foreign state')
                ok &= self.J('distance', st.poly.entails('eq', ev[2] - p.len), st, ev[-1], 'the distance is computed for another query length')
                dist[ev[1]] = ev[3]
            elif k == 'gwrite':
                ok &= self.J('effects', False, st, ev[-1], f'a query writes global state {ev[1]}')
            elif k == 'write':
                o = ev[1]
                kind = st.meta(o)[0]
                r = st.root(o)
                if kind == 'sym' or o in p.owned0:
                    ok &= self.J('effects', False, st, ev[-1], f'a query modifies {oname(r)}, which it does not own')
        if pend is not None:
            ok &= self.J('follow', False, st, pend[-1], 'the state reached over an edge is dropped')
            return None, st
        if not ok:
            return None, st
        # ---- outcome
        outs = call1(e, st, p.f_eq, [q, q])
        res = []
        for o in outs:
            c = o.eval(e.cond(o, o.ret))
            if c is None:
                raise Unsupported('completion flag not resolved')
            res.append((o, c))
        if len(res) != 1:
            raise Unsupported('completion flag forks')
        o, complete = res[0]
        o = self.finals(o, items)
        for s, fin in o:
            self.outcome(s, q, items, fin, dist, reported, complete, loc)
        return ('complete' if complete else 'match'), st

    def finals(self, st, items):
        """[(state, {item: final})]"""
        e = self.p.e
        work = [(st, {})]
        for it in items:
            nxt = []
            for s, d in work:
                for o in call1(e, s, self.p.f_final, [it.node]):
                    v = e.cond(o, o.ret)
                    r = o.eval(v)
                    if r is not None:
                        nxt.append((o, dict(d, **{it.obj: r})))
                    else:
                        a, b = o.copy(), o
                        if a.assume(v):
                            nxt.append((a, dict(d, **{it.obj: True})))
                        if b._assume_neg(v):
                            nxt.append((b, dict(d, **{it.obj: False})))
            work = nxt
        return work

    def outcome(self, s, q, items, fin, dist, reported, complete, loc):
        p, e = self.p, self.p.e
        init = items[0]
        n = p.n
        # what must have been reported
        def due(it):
            """is it possible that `it` matches?"""
            if not fin[it.obj]:
                return False
            v = p.len if it is init else dist.get(it.state)
            if v is None:
                return True
            return sat_quick(s, [('ge', n - v)])
        now = None
        if not complete:
            r = call1(e, s, p.f_deref, [q])
            if len(r) != 1:
                raise Unsupported('candidate')
            s = r[0]
            cp = s.norm(s.ret)
            cand = s.models.get((cp.obj, cp.off))
            if not isinstance(cand, Str):
                raise Unsupported('candidate text')
            for it in items:
                want = Str([]) if it is init else Str([('sub', ('path', it.obj), K(0), Lin.var(('len', ('path', it.obj))))])
                if cand == want:
                    now = it
            if not self.J('candidate', now is not None, s, loc, 'the reported term does not spell a path that was matched'):
                return
            self.J('once', now.obj not in reported, s, loc, 'the same match is reported twice')
            v = p.len if now is init else dist.get(now.state)
            self.J('match', fin[now.obj], s, loc, 'a prefix that is no term is reported')
            if v is None:
                self.J('match', False, s, loc, 'a term is reported whose distance was not determined')
            else:
                prove(self.ctx, s, self.R + '.match', self.inst, loc, [[('ge', v - n - 1)]], 'a term farther than the maximum distance is reported')
                if p.res == 'candidate':
                    d = s.mem.get((cp.obj, cp.off + 32))
                    if not isinstance(d, Lin):
                        raise Unsupported('candidate distance')
                    prove(self.ctx, s, self.R + '.distance', self.inst, loc, [[('ne', d - v)]], 'the reported distance is not the one determined')
        for it in items:
            if it is now or it.obj in reported:
                continue
            self.J('missed', not due(it), s, loc, 'the empty term is skipped although it is within the maximum distance' if it is init
                   else 'a final node within the maximum distance is passed over')
        if complete:
            for it in items:
                opened = it.left is not None or any(ev[0] == 'foreach' and ev[1] == it.node for ev in s.ev)
                left = it.left if it.left is not None else self.edges(s, it.node)
                self.J('exhaust', opened and not left, s, loc, 'the query ends although paths remain unexplored')
        s.user['now'] = now.obj if now else None
        self.last = now.obj if now else None

    def pick(self, st, it, ev):
        """the edge this transition follows"""
        left = it.left
        if not left:
            return None
        nx = None
        if ev[3].obj is not None:
            for x in st.ev:
                if x[0] == 'isect' and x[4] == ev[3]:
                    nx = x
            if nx is not None:
                for ed in left:
                    if ed[1] == nx[3] and st.poly.entails('eq', ed[0] - nx[2]):
                        return ed
                return None
        names = set()
        for i, v in ev[2].writes:
            if isinstance(v, B):
                names |= cond_vars(v.c)
        for ed in left:
            if ed[0].t[0][0] in names:
                return ed
        if names & {x.t[0][0] for x, _ in self.edges(st, it.node)}:
            return None
        return left[0]

    def window(self, st, it, edge, ev):
        k = (id(ev), edge)
        if k not in self.seen:
            self.seen[k] = (self.window1(ev[4], it, edge, ev), ev)
        return self.seen[k][0]

    def window1(self, st, it, edge, ev):
        p, e = self.p, self.p.e
        b = ev[2]
        h = st.user['heads'].get(ev[1].obj)
        if h is None:
            return True
        rest = p.len - h
        ok = prove(self.ctx, st, self.R + '.window', self.inst, ev[-1],
                   [[('ge', b.n - rest - 1)], [('ge', rest - b.n - 1), ('ge', p.n * 2 + 1 - b.n - 1)]],
                   'the window does not cover min(2n+1, remaining) characters from the base of the state')
        # contents
        want = []
        cov = []
        for i, v in b.writes:
            s = st.copy()
            ch = e.models.char_var(s, 'term', h + i)
            e.models.congruence(s, 'term')
            c = simp_cmp('eq', edge[0] - ch)
            good = True
            for truth in (True, False):
                t = s.copy()
                if not (t.assume(c) if truth else t._assume_neg(c)):
                    continue
                r = t.eval(e.cond(t, v)) if isinstance(v, (B, Lin)) else None
                if r is not truth:
                    good = False
            if not good:
                later = any(st.poly.entails('eq', i2 - i) for i2, _ in b.writes[b.writes.index((i, v)) + 1:])
                if later:
                    continue
                ok &= self.J('vector', False, st, ev[-1], f'entry {i} of the characteristic vector does not tell whether the character equals the query at {h + i}')
            else:
                cov.append(i)
        if b.n.is_const() or any(st.poly.entails('eq', b.n - k) for k in range(8)):
            k = next(k for k in range(8) if st.poly.entails('eq', b.n - k))
            for j in range(k):
                hit = any(st.poly.entails('eq', i - j) for i in cov)
                if not hit:
                    ok &= self.J('vector', False, st, ev[-1], f'entry {j} of the characteristic vector is never set')
            if ok:
                self.ctx.ok(self.R + '.vector', self.inst, ev[-1])
        return ok


def simp_cmp(k, l):
    from engine import simp
    return simp(('cmp', k, l))


def cond_vars(c):
    if c[0] == 'cmp':
        return set(c[2].vars())
    if c[0] == 'not':
        return cond_vars(c[1])
    if c[0] in ('and', 'or'):
        return cond_vars(c[1]) | cond_vars(c[2])
    return set()


def check_driver(ctx, alg, res, peel=3, peel2=2, R=None):
    R = R or f'R.query[{alg},{res}]'
    inst = f'query<{alg},{res}>'
    try:
        p = Pipe(ctx, alg, res, peel=peel)
        p.e.peels = [(re.compile('characteristic_vector'), 1)]
        m = Monitor(p, R, inst)
        loc = ctx.locof(p.f_begin)
        starts = p.query()
        p.owned0 = {o for o in p.initial_states[0].objs if p.initial_states[0].meta(o)[0] in ('heap', 'elem')}
        cnt = 0
        for o in p.began:
            w = [ev for ev in o.ev if ev[0] == 'gwrite' or ev[0] == 'write' and ev[1] in (p.tr.obj, 'root')]
            ctx.judge(R + '.effects', inst, not w, o, w[0][-1] if w else loc, 'starting a query modifies the transducer, its dictionary or global state')
        vectors(ctx, p, R, inst)
        level = starts
        for rnd in range(2):
            nxt = []
            for s, q in level:
                cnt += 1
                m.last = None
                kind, s2 = m.run(s, q)
                destroy(ctx, p, R, inst, s, q)
                if kind == 'match' and m.last is not None and rnd == 0:
                    t = s.copy()
                    t.ev.append(('mark', m.last))
                    nxt.append((t, q))
            p.e.peel = peel2
            level = []
            for s, q in nxt:
                level += [(x, q) for x in call1(p.e, s, p.f_inc, [q])]
            vectors(ctx, p, R, inst)
            if not level:
                break
        dead_check(ctx, p.e, R, inst)
        ctx.instances[R] = cnt
        ctx.account(p.e)
    except (Unsupported, NeedFork) as u:
        ctx.maybe(R, inst, '', f'outside the analysed fragment: {u}')


def vectors(ctx, p, R, inst):
    """windows longer than the iterations followed one by one: a vector that is being
    filled must be long enough for some state of the query"""
    for c in p.e.cuts:
        used = {ev[2].id for ev in c.ev if ev[0] == 'trans'}
        heads = list(c.user.get('heads', {}).values())
        bits = [b for b in c.models.values() if isinstance(b, Bits) and b.id not in used]
        if len(bits) != 1 or not heads or not c.exact():
            continue
        b = bits[0]
        if b.n.is_const() and b.n.c < 4:
            continue
        alts = [[('ge', p.len - h - b.n - 1), ('ge', p.n * 2 - b.n)] for h in heads]
        if all(sat_quick(c, a) for a in alts):
            ls = c.user['cut'][0]
            prove(ctx, c, R + '.window', inst, ctx.locof(ls.fn), alts[-1:],
                  'the window does not cover min(2n+1, remaining) characters from the base of the state')
        else:
            ctx.ok(R + '.window', inst, ctx.locof(c.user['cut'][0].fn))
    p.e.cuts = []


def destroy(ctx, p, R, inst, s, q):
    """the query may be abandoned here: everything it allocated is freed, once, and
    nothing else"""
    loc = ctx.locof(p.f_dtor)
    base = p.initial_states[0]
    for o in call1(p.e, s, p.f_dtor, [q]):
        if not o.exact():
            continue
        n0 = len(s.ev)
        bad = False
        for ev in o.ev[n0:]:
            if ev[0] in ('uaf', 'doublefree'):
                ctx.judge(R + '.memory', inst, False, o, ev[-1], ('uses freed memory' if ev[0] == 'uaf' else 'frees memory twice') + ' when destroyed')
                bad = True
            if ev[0] == 'free' and (ev[1] in p.owned0 or o.meta(ev[1])[0] == 'sym'):
                ctx.judge(R + '.memory', inst, False, o, ev[-1], 'a query frees what the transducer or dictionary owns')
                bad = True
        news = [ev[1] for ev in o.ev if ev[0] == 'new']
        lost = [x for x in news if x not in o.freed]
        if not bad:
            ctx.judge(R + '.memory', inst, not lost, o, loc, 'memory allocated by a query is not freed with it: ' + ', '.join(map(str, lost[:3])))
