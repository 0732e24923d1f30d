"""Path-sensitive abstract interpreter over LLVM IR.

Abstract state = relational integer domain (lin.Poly) x boolean/pointer facts x
abstract heap (objects with byte-offset cells; C++ standard-library objects are
abstract values, see models.py) x effect trace.  Straight-line code is analysed
with trace partitioning (one abstract state per path); loops are never unrolled:
the cells a loop changes are replaced by fresh symbols constrained by an
inductive invariant (checked, Houdini style), and what follows a loop is
analysed from {loop entry} U {one arbitrary iteration}.  No input is ever
chosen and nothing is executed; no external solver is called.
"""
import re
from lin import Lin, Poly, K, NAMES
import guards
from irparse import size_of, field_off, align_of, IRError, PTR, int_ty

M62 = 1 << 62


class Unsupported(Exception):
    pass


class NeedFork(Exception):
    def __init__(self, cond):
        self.cond = cond


class Dead(Exception):
    """this abstract path ends here (undefined behaviour, trap, infeasible)"""

    def __init__(self, why):
        self.why = why


# ------------------------------------------------------------------ values
class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off=0):
        self.obj, self.off = obj, off

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.obj == o.obj and self.off == o.off

    def __hash__(self):
        return hash(('P', self.obj, self.off))

    def __repr__(self):
        if self.obj is None:
            return 'null'
        return f'&{oname(self.obj)}' + (f'+{self.off}' if self.off != 0 else '')


def oname(o):
    if isinstance(o, str):
        return o
    if isinstance(o, tuple) and o and o[0] == 'S':
        return f'{oname(o[1])}[{o[2]}]'
    return str(o)


NULL = Ptr(None)


class Fn:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Fn) and o.name == self.name

    def __hash__(self):
        return hash(('F', self.name))

    def __repr__(self):
        return f'fn:{self.name}'


class B:
    """boolean abstract value: a condition"""
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = c

    def __eq__(self, o):
        return isinstance(o, B) and self.c == o.c

    def __hash__(self):
        return hash(('B', self.c))

    def __repr__(self):
        return f'<{cstr(self.c)}>'


def cstr(c):
    if c[0] == 'cmp':
        return f'{c[2]} {dict(ge=">=", eq="==", ne="!=")[c[1]]} 0'
    if c[0] == 'not':
        return f'!({cstr(c[1])})'
    if c[0] in ('and', 'or'):
        return f'({cstr(c[1])} {c[0]} {cstr(c[2])})'
    if c[0] in ('T', 'F'):
        return c[0]
    return str(c)


T_, F_ = ('T',), ('F',)
TRUE, FALSE = B(T_), B(F_)


def neg(c):
    k = c[0]
    if k == 'T':
        return F_
    if k == 'F':
        return T_
    if k == 'not':
        return c[1]
    if k == 'cmp':
        if c[1] == 'eq':
            return ('cmp', 'ne', c[2])
        if c[1] == 'ne':
            return ('cmp', 'eq', c[2])
        return ('cmp', 'ge', -c[2] - 1)
    return ('not', c)


class Agg:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = list(v)

    def __repr__(self):
        return f'agg{self.v}'

    def __eq__(self, o):
        return isinstance(o, Agg) and self.v == o.v

    def __hash__(self):
        return hash(tuple(self.v))


class Op:
    """opaque tagged value (iterators, bit references, ...)"""
    __slots__ = ('k', 'a')

    def __init__(self, k, *a):
        self.k, self.a = k, a

    def __eq__(self, o):
        return isinstance(o, Op) and self.k == o.k and self.a == o.a

    def __hash__(self):
        return hash((self.k, self.a))

    def __repr__(self):
        return f'{self.k}{self.a}'


UNDEF = Op('undef')


class Frame:
    __slots__ = ('fn', 'block', 'idx', 'regs', 'prev', 'res', 'cont', 'inloop')

    def __init__(self, fn, res=None, cont=None):
        self.fn, self.block, self.idx = fn, fn.entry, 0
        self.regs = {}
        self.prev = None
        self.res = res          # register of the caller receiving the result
        self.cont = cont        # block of the caller to continue in (invoke)
        self.inloop = []        # headers of loops currently entered

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn, f.block, f.idx, f.prev, f.res, f.cont = self.fn, self.block, self.idx, self.prev, self.res, self.cont
        f.regs = dict(self.regs)
        f.inloop = list(self.inloop)
        return f


class State:
    def __init__(self):
        self.poly = Poly()
        self.atoms = {}
        self.alias = {}
        self.mem = {}
        self.models = {}
        self.lazy = {}
        self.objs = {}
        self.ev = []
        self.freed = {}
        self.frames = []
        self.ctr = 0
        self.foralls = []      # (kind, container key, lo, hi, value)
        self.chars = {}        # (base) -> list of (idx, var)
        self.notes = []        # imprecision markers
        self.cps = {}          # dst obj -> [(dstoff, srcobj, srcoff, n)]
        self.ret = None
        self.loops = []        # LoopSummary objects crossed on this path
        self.facts = []        # human readable path facts
        self.user = {}

    def exact(self):
        """no loop abstraction and no unknown callee on the way to this state"""
        return not any(n[0] in ('widened', 'extern', 'string', 'havoc') for n in self.notes)

    def copy(self):
        s = State.__new__(State)
        s.poly = self.poly
        s.atoms = dict(self.atoms)
        s.alias = dict(self.alias)
        s.mem = dict(self.mem)
        s.models = dict(self.models)
        s.lazy = dict(self.lazy)
        s.objs = dict(self.objs)
        s.ev = list(self.ev)
        s.freed = dict(self.freed)
        s.frames = [f.copy() for f in self.frames]
        s.ctr = self.ctr
        s.foralls = list(self.foralls)
        s.chars = {k: list(v) for k, v in self.chars.items()}
        s.notes = list(self.notes)
        s.cps = {k: list(v) for k, v in self.cps.items()}
        s.ret = self.ret
        s.loops = list(self.loops)
        s.facts = list(self.facts)
        s.user = dict(self.user)
        return s

    def fresh(self, p):
        self.ctr += 1
        return f'{p}#{self.ctr}'

    # ---- object helpers
    def new_obj(self, kind, label, root=None):
        oid = self.fresh(label)
        self.objs[oid] = (kind, label, root or oid)
        return oid

    def meta(self, o):
        m = self.objs.get(o)
        if m is None:
            m = ('sym', oname(o), o)
            self.objs[o] = m
        return m

    def root(self, o):
        return self.meta(o)[2]

    def norm(self, p):
        n = 0
        while isinstance(p, Ptr) and p.obj in self.alias and n < 20:
            t = self.alias[p.obj]
            if t is None:
                return NULL
            p = Ptr(t.obj, add_off(t.off, p.off))
            n += 1
        return p

    # ---- facts
    def lin_known(self, kind, l):
        return self.poly.entails(kind, l)

    def sub_cond(self, c):
        return c

    def eval(self, c):
        """True / False / None"""
        k = c[0]
        if k == 'T':
            return True
        if k == 'F':
            return False
        if k == 'not':
            r = self.eval(c[1])
            return None if r is None else not r
        if k == 'and':
            a = self.eval(c[1])
            b = self.eval(c[2])
            if a is False or b is False:
                return False
            if a and b:
                return True
            return None
        if k == 'or':
            a = self.eval(c[1])
            b = self.eval(c[2])
            if a or b:
                return True
            if a is False and b is False:
                return False
            return None
        if k == 'cmp':
            if self.poly.entails(c[1], c[2]):
                return True
            n = neg(c)
            if self.poly.entails(n[1], n[2]):
                return False
            return None
        if k == 'isnull':
            p = self.norm(c[1])
            if p.obj is None:
                return True
            if isinstance(p.off, Lin) or p.off != 0:
                return False
            kind = self.meta(p.obj)[0]
            if kind != 'sym':
                return False
            return self.atoms.get(('isnull', p.obj))
        if k == 'peq':
            a, b = self.norm(c[1]), self.norm(c[2])
            if a == b:
                return True
            if not (isinstance(a, Ptr) and isinstance(b, Ptr)):
                return self.atoms.get(c)
            if a.obj is None:
                return self.eval(('isnull', b))
            if b.obj is None:
                return self.eval(('isnull', a))
            if a.obj == b.obj:
                if isinstance(a.off, Lin) or isinstance(b.off, Lin):
                    d = as_lin(a.off) - as_lin(b.off)
                    return self.eval(('cmp', 'eq', d))
                return a.off == b.off
            ka, kb = self.meta(a.obj)[0], self.meta(b.obj)[0]
            if ka != 'sym' and kb != 'sym':
                return False
            if self.separate(a.obj, b.obj):
                na, nb = self.eval(('isnull', a)), self.eval(('isnull', b))
                if na is False or nb is False:
                    return False
                return None
            if ka != 'sym' and self.root(b.obj) != a.obj and self.objs.get(a.obj, ('',))[0] in ('alloca', 'heap') \
                    and not self.escaped(a.obj):
                return False
            if kb != 'sym' and self.objs.get(b.obj, ('',))[0] in ('alloca', 'heap') and not self.escaped(b.obj):
                return False
            return self.atoms.get(peq_key(a, b))
        if k == 'bit':
            v = self.atoms.get(c)
            if v is not None:
                return v
            for a, val in self.atoms.items():
                if a[0] == 'bit' and a[1] == c[1] and self.poly.entails('eq', a[2] - c[2]):
                    return val
            for fa in self.foralls:
                if fa[0] == 'bit' and fa[1] == c[1]:
                    if self.poly.entails('ge', c[2] - fa[2]) and self.poly.entails('ge', fa[3] - c[2] - 1):
                        return fa[4]
            return None
        return self.atoms.get(c)

    def escaped(self, o):
        return False

    def separate(self, a, b):
        """distinct by the stated precondition: objects of different separate roots, or
        different nodes of one acyclic structure"""
        sep = self.user.get('sep')
        if not sep:
            return False
        ra, rb = self.root(a), self.root(b)
        if ra != rb:
            return ra in sep and rb in sep
        if ra not in sep:
            return False
        ok = lambda o: o == ra or isinstance(o, tuple) and o[0] == 'S'
        return ok(a) and ok(b) and a != b

    def decide(self, c):
        r = self.eval(c)
        if r is not None:
            return r
        # decompose
        if c[0] == 'not':
            return not self.decide(c[1])
        if c[0] == 'and':
            return self.decide(c[1]) and self.decide(c[2])
        if c[0] == 'or':
            return self.decide(c[1]) or self.decide(c[2])
        if c[0] == 'peq':
            a, b = self.norm(c[1]), self.norm(c[2])
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is not None and b.obj is not None and self.separate(a.obj, b.obj):
                return self.decide(('isnull', a)) and self.decide(('isnull', b))
        raise NeedFork(c)

    def assume(self, c):
        """add condition; returns False if it makes the state empty"""
        r = self.eval(c)
        if r is not None:
            return r
        k = c[0]
        if k == 'not':
            return self._assume_neg(c[1])
        if k == 'and':
            return self.assume(c[1]) and self.assume(c[2])
        if k == 'or':
            raise Unsupported('assume disjunction')
        if k == 'cmp':
            self.poly = self.poly.add(c[1], c[2])
            self.facts.append(cstr(c))
            return True
        if k == 'isnull':
            p = self.norm(c[1])
            self.alias[p.obj] = None
            self.facts.append(f'{p} == null')
            return True
        if k == 'peq':
            a, b = self.norm(c[1]), self.norm(c[2])
            self.facts.append(f'{a} == {b}')
            # alias the symbolic one to the other
            if self.meta(a.obj)[0] == 'sym' and a.off == 0:
                self.alias[a.obj] = b
                self._move_cells(a.obj, b)
            elif self.meta(b.obj)[0] == 'sym' and b.off == 0:
                self.alias[b.obj] = a
                self._move_cells(b.obj, a)
            return True
        self.atoms[c] = True
        self.facts.append(cstr(c))
        return True

    def _move_cells(self, o, p):
        for (oo, off) in [k for k in self.mem if k[0] == o]:
            v = self.mem.pop((oo, off))
            key = (p.obj, add_off(p.off, off))
            self.mem.setdefault(key, v)

    def _assume_neg(self, c):
        k = c[0]
        if k == 'cmp':
            return self.assume(neg(c))
        if k == 'isnull':
            p = self.norm(c[1])
            self.atoms[('isnull', p.obj)] = False
            self.facts.append(f'{p} != null')
            return True
        if k == 'peq':
            a, b = self.norm(c[1]), self.norm(c[2])
            self.atoms[peq_key(a, b)] = False
            self.facts.append(f'{a} != {b}')
            return True
        if k == 'and':
            if self.eval(c[1]) is True:
                return self._assume_neg(c[2])
            if self.eval(c[2]) is True:
                return self._assume_neg(c[1])
            raise Unsupported('assume negated conjunction')
        if k == 'or':
            return self._assume_neg(c[1]) and self._assume_neg(c[2])
        if k == 'not':
            return self.assume(c[1])
        self.atoms[c] = False
        self.facts.append('!' + cstr(c))
        return True


def peq_key(a, b):
    x, y = sorted([repr(a), repr(b)])
    return ('peq!', x, y)


def as_lin(x):
    return x if isinstance(x, Lin) else Lin(x)


def add_off(a, b):
    if isinstance(a, Lin) or isinstance(b, Lin):
        r = as_lin(a) + as_lin(b)
        return r.c if r.is_const() else r
    return a + b


class LoopSummary:
    def __init__(self, fn, header):
        self.fn, self.header = fn, header
        self.entry = None      # state at loop entry
        self.top = None        # state at an arbitrary iteration (after havoc)
        self.havoc = {}        # cell -> (init value, symbolic value)
        self.mhavoc = {}       # model cell -> (init, symbolic)
        self.backs = []        # states at the back edge, from `top`
        self.invs = []
        self.loc = None


class Outcome:
    def __init__(self, kind, st):
        self.kind, self.st = kind, st


class Engine:
    def __init__(self, prog, hooks=None, max_states=6000, max_steps=3000000):
        self.prog = prog
        self.hooks = hooks or []        # list of (regex on demangled name, handler)
        self.max_states = max_states
        self.max_steps = max_steps
        self.steps = 0
        self.nstates = 0
        self.opaque_mul = False     # products that may wrap are opaque values
        self.stats = dict(paths=0, calls=0, loops=0, functions=set(), unknown=set())
        self.dead = []                  # (why, state)
        self.cuts = []                  # states cut at back edges (their effects count)
        self.quiet = 0
        self.vcall = None               # handler for unresolved virtual calls
        self.depth_limit = 60
        self.peel = 2
        self.rec_limit = 2
        self.widths = {}
        self.cutoff = False             # stop after the peeled iterations instead of widening
        self.peels = []                 # (regex on function name, peel)
        self.ncut = 0
        import models
        self.models = models.Models(self)

    # ------------------------------------------------------------ running
    def run(self, fname, args, st=None):
        return self.call_fn(st or State(), self.prog.func(fname), args)

    def call_fn(self, st, fn, args):
        """analyse fn(args) from st; returns the final states (st.ret = result)"""
        st = st.copy()
        base = len(st.frames)
        self.push(st, fn, args, None, None)
        outs = self.explore(st, base + 1, None)
        self.stats['paths'] += len(outs)
        return [o.st for o in outs]

    def push(self, st, fn, args, res, cont):
        fn.parse()
        if fn.irreducible:
            raise Unsupported(f'irreducible control flow in {fn.dem}')
        if len(st.frames) > self.depth_limit:
            raise Unsupported('call depth')
        f = Frame(fn, res, cont)
        if len(args) != len(fn.params):
            raise Unsupported(f'arity of {fn.dem}')
        for (name, ty, at), a in zip(fn.params, args):
            f.regs[name] = a
        st.frames.append(f)
        self.stats['functions'].add(fn.name)

    def explore(self, st0, depth, watch):
        """Analyse all paths from st0 until the frame at `depth` returns or, when
        watch is a loop header of that frame, until that loop takes its back edge
        ('back') or is left ('exit', with the pending jump recorded)."""
        outs = []
        work = [st0]
        while work:
            st = work.pop()
            self.nstates += 1
            if self.nstates > self.max_states:
                raise Unsupported('state limit')
            try:
                r = self.run_path(st, depth, watch, work)
            except Dead as d:
                if not self.quiet:
                    self.dead.append((d.why, st))
                continue
            if r is not None:
                outs.append(r)
        return outs

    def run_path(self, st, depth, watch, work):
        """returns Outcome, or None when the path ended or moved to `work`"""
        while True:
            self.steps += 1
            if self.steps > self.max_steps:
                raise Unsupported('step limit')
            pend = st.user.pop('_pend', None)
            if pend is not None:
                if pend[0] == 'goto':
                    r = self.goto(st, pend[1], depth, watch, work)
                    if r is not None:
                        return r if r != 'moved' else None
                else:                    # ('ret', res, cont): frame already popped
                    _, res, cont = pend
                    if len(st.frames) == depth - 1:
                        st.user['_pend'] = pend
                        return Outcome('ret', st)
                    self.deliver(st, res, st.ret)
                    if cont is not None:
                        st.user['_pend'] = ('goto', cont)
                continue
            fr = st.frames[-1]
            ins = fr.fn.blocks[fr.block].ins[fr.idx]
            op = ins.op
            snap = None
            try:
                if op == 'br':
                    a = ins.a
                    if a['cond'] is None:
                        to = a['to'][0]
                    else:
                        c = self.cond(st, self.val(st, a['cond'], None))
                        to = a['to'][0] if st.decide(c) else a['to'][1]
                    st.user['_pend'] = ('goto', to)
                elif op == 'switch':
                    st.user['_pend'] = ('goto', self.switch(st, ins))
                elif op == 'ret':
                    v = None
                    if ins.a['val'] is not None:
                        v = self.val(st, ins.a['val'], ins.a['ty'])
                    st.frames.pop()
                    st.ret = v
                    st.user['_pend'] = ('ret', fr.res, fr.cont)
                elif op == 'call':
                    snap = st.copy()
                    r = self.call(st, fr, ins)
                    if r == 'inlined':
                        continue
                    alts = r if isinstance(r, list) else [st]
                    for alt in alts:
                        f2 = alt.frames[-1]
                        f2.idx += 1
                        if ins.a['normal'] is not None:
                            alt.user['_pend'] = ('goto', ins.a['normal'])
                    if isinstance(r, list):
                        work.extend(alts)
                        return None
                else:
                    self.simple(st, fr, ins)
                    fr.idx += 1
            except NeedFork as nf:
                if snap is not None:
                    st.__dict__.clear()
                    st.__dict__.update(snap.__dict__)
                alt = st.copy()
                ok1 = st.assume(nf.cond)
                ok2 = alt._assume_neg(nf.cond)
                if ok2:
                    work.append(alt)
                if not ok1:
                    return None
                self.nstates += 1
                if self.nstates > self.max_states:
                    raise Unsupported('state limit')

    def deliver(self, st, res, v):
        fr = st.frames[-1]
        if res is not None:
            fr.regs[res] = v
        fr.idx += 1

    def goto(self, st, to, depth, watch, work):
        fr = st.frames[-1]
        fn = fr.fn
        at_watch = watch is not None and len(st.frames) == depth
        while fr.inloop and to not in fn.loops[fr.inloop[-1]]:
            h = fr.inloop.pop()
            if at_watch and h == watch:
                st.user['_pend'] = ('goto', to)
                return Outcome('exit', st)
        if to in fn.loops:
            if fr.inloop and fr.inloop[-1] == to:
                if at_watch and to == watch:
                    self.jump(st, to)
                    return Outcome('back', st)
                raise Unsupported('unexpected back edge')
            work.extend(self.process_loop(st, to))
            return 'moved'
        self.jump(st, to)
        return None

    def jump(self, st, to):
        fr = st.frames[-1]
        fr.prev, fr.block, fr.idx = fr.block, to, 0
        phis = {}
        for ins in fr.fn.blocks[to].ins:
            if ins.op != 'phi':
                break
            for o, b in ins.a['inc']:
                if b == fr.prev:
                    phis[ins.res] = self.val(st, o, ins.a['ty'])
                    break
            fr.idx += 1
        fr.regs.update(phis)

    # ------------------------------------------------------------ loops
    def process_loop(self, st, header):
        d = len(st.frames)
        fn = st.frames[-1].fn
        self.stats['loops'] += 1
        entry = st.copy()
        entry.frames[-1].inloop.append(header)
        self.jump(entry, header)
        ls = LoopSummary(fn, header)
        ls.entry = entry
        ls.depth = d
        res = []
        # (a) exactly the first `peel` iterations (trace partitioning): no abstraction
        cur = [entry]
        peel = next((n for rx, n in self.peels if rx.search(fn.dem)), self.peel)
        for k in range(peel + 1 if not self.quiet else 1):
            nxt = []
            for seed in cur:
                for o in self.explore(seed.copy(), d, header):
                    if o.kind == 'back':
                        nxt.append(o.st)
                    else:
                        o.st.loops.append((ls, None if k == 0 else ('peel', k)))
                        res.append(o.st)
            cur = nxt
            if not cur:
                # every path has left the loop: nothing to abstract
                ls.top = None
                return res
        if self.cutoff:
            self.ncut += len(cur)
            for c in cur:
                c.user['cut'] = (ls, None)
                self.cuts.append(c)
            return res
        cells, invs, proposed = [], [], False
        banned = set()
        for _ in range(14):
            top = entry.copy()
            hv = self.havoc(top, cells, header)
            feats = [f for h in hv for f in h['feats']]
            fidx = {f['key']: f for f in feats}
            live = []
            for inv in invs:
                c = self.inv_cond(inv, fidx, 'sym', top)
                if c is None:
                    continue
                top.assume(c)
                live.append(inv)
            invs = live
            self.quiet += 1
            try:
                outs = self.explore(top.copy(), d, header)
            finally:
                self.quiet -= 1
            backs = [o.st for o in outs if o.kind == 'back']
            changed = self.changed_cells(top, backs, cells)
            if changed:
                cells = cells + changed
                invs, proposed = [], False
                continue
            if not proposed:
                invs = [i for i in self.propose(entry, top, backs, feats, hv) if repr(i) not in banned]
                proposed = True
                if invs:
                    continue
            bad = []
            for inv in invs:
                for b in backs:
                    c = self.inv_cond(inv, fidx, 'next', b)
                    if c is None or b.eval(c) is not True:
                        bad.append(inv)
                        break
            if bad:
                banned |= {repr(b) for b in bad}
                invs = [i for i in invs if i not in bad]
                continue
            break
        else:
            raise Unsupported('loop fixpoint')
        ls.top, ls.backs, ls.invs, ls.hv = top, backs, invs, hv
        ls.exits_top = [o for o in outs if o.kind != 'back']
        # universally quantified facts established by every completed iteration
        fas = self.forall_facts(entry, top, backs, feats)
        # (b) any number of iterations: from an arbitrary (widened) iteration
        for bi, b in enumerate(backs):
            s = b.copy()
            s.foralls.extend(fas)
            s.notes.append(('counted' if self.exact_count(entry, top, backs, hv, fas) else 'widened', fn.dem, header))
            for o in self.explore(s, d, header):
                if o.kind == 'back':
                    if not self.quiet:
                        o.st.user['cut'] = (ls, bi)
                        self.cuts.append(o.st)
                else:
                    o.st.loops.append((ls, bi))
                    res.append(o.st)
        return res

    def changed_cells(self, top, backs, known):
        known = set(known)
        out = []
        for b in backs:
            for k, v in b.mem.items():
                key = ('C', k)
                if key in known or key in out:
                    continue
                if k[0] not in top.objs:
                    continue
                if k[0] in b.freed and k[0] not in top.freed:
                    continue
                old = top.mem.get(k)
                if old is None:
                    old = b.lazy.get(k)
                    if old is None:
                        # first written inside the loop (uninitialised before)
                        if self.stack_dead(top, k):
                            pass
                        out.append(key)
                        continue
                if not same(b, old, v):
                    out.append(key)
            for k, v in b.models.items():
                key = ('M', k)
                if key in known or key in out or k[0] not in top.objs:
                    continue
                old = top.models.get(k)
                if old is None:
                    old = b.lazy.get(('M', k))
                if old is None or old != v:
                    out.append(key)
            for r, v in b.frames[-1].regs.items():
                key = ('R', r)
                if key in known or key in out:
                    continue
                old = top.frames[-1].regs.get(r)
                if old is not None and old != v and self.is_phi(top.frames[-1].fn, r):
                    out.append(key)
        return out

    def is_phi(self, fn, r):
        for h in fn.loops:
            for ins in fn.blocks[h].ins:
                if ins.op == 'phi' and ins.res == r:
                    return True
        return False

    def stack_dead(self, st, k):
        return False

    def getcell(self, st, key):
        if key[0] == 'C':
            return st.mem.get(key[1])
        if key[0] == 'M':
            return st.models.get(key[1])
        return st.frames[-1].regs.get(key[1])

    def setcell(self, st, key, v):
        if key[0] == 'C':
            st.mem[key[1]] = v
        elif key[0] == 'M':
            st.models[key[1]] = v
        else:
            st.frames[-1].regs[key[1]] = v

    def havoc(self, top, cells, header):
        out = []
        for key in cells:
            init = self.getcell(top, key)
            if init is None and key[0] == 'C' and key[1] in top.lazy:
                init = top.lazy[key[1]]
            name = f'{oname(key[1][0]) if key[0] != "R" else key[1]}'
            if key[0] != 'R' and key[1][1] != 0:
                name += f'.{key[1][1]}'
            h = dict(key=key, init=init, feats=[])
            if init is None or init is UNDEF:
                # dead before the loop: any value
                if key[0] == 'C':
                    top.mem[key[1]] = UNDEF
                elif key[0] == 'M':
                    top.models.pop(key[1], None)
                out.append(h)
                continue
            v, feats = self.models.havoc_value(self, top, name, init)
            w = self.widths.get(key[1]) if key[0] == 'C' else None
            if w is not None and isinstance(v, Lin):
                top.poly = top.poly.add('ge', v + (1 << w - 1)).add('ge', K((1 << w) - 1) - v)
            for fname, sym, i0, getter in feats:
                h['feats'].append(dict(key=(key, fname), cell=key, sym=sym, init=i0, get=getter))
            self.setcell(top, key, v)
            h['sym'] = v
            out.append(h)
        return out

    def feat_val(self, f, mode, st):
        if mode == 'sym':
            return f['sym']
        v = self.getcell(st, f['cell'])
        try:
            return f['get'](v)
        except Exception:
            return None

    def inv_cond(self, inv, fidx, mode, st):
        k = inv[0]
        if k == 'lin':        # ('lin', kind, ((featkey, coef)...), const Lin)
            r = inv[3]
            for fk, c in inv[2]:
                f = fidx.get(fk)
                if f is None:
                    return None
                v = self.feat_val(f, mode, st)
                if not isinstance(v, Lin):
                    return None
                r = r + v * c
            return ('cmp', inv[1], r)
        if k == 'nonnull':
            f = fidx.get(inv[1])
            if f is None:
                return None
            v = self.feat_val(f, mode, st)
            if not isinstance(v, Ptr):
                return None
            return ('not', ('isnull', v))
        if k == 'chr':        # cell value == char at index 0 of string cell
            f = fidx.get(inv[1])
            if f is None:
                return None
            v = self.feat_val(f, mode, st)
            s = self.getcell(st, inv[2])
            if s is None:
                return None
            ch = self.models.char_at(st, s, K(0), True)
            if ch is None or not isinstance(v, Lin):
                return None
            return ('cmp', 'eq', v - ch)
        if k == 'iff':
            f = fidx.get(inv[1])
            v = self.feat_val(f, mode, st) if f else None
            if not isinstance(v, B):
                return None
            return v.c if inv[2] else neg(v.c)
        if k == 'ptreq':
            f = fidx.get(inv[1])
            v = self.feat_val(f, mode, st) if f else None
            if not isinstance(v, Ptr):
                return None
            base = self.getcell(st, inv[2])
            if not isinstance(base, Ptr) or base.obj is None:
                return None
            w = self.peek_link(st, base, inv[3])
            if w is None:
                return None
            return ('peq', v, w)
        return None

    def peek_link(self, st, base, off):
        base = st.norm(base)
        if base.obj is None:
            return None
        return self.load(st, Ptr(base.obj, add_off(base.off, off)), PTR)

    def propose(self, entry, top, backs, feats, hv):
        if not backs:
            return []
        invs = []
        nums = [f for f in feats if isinstance(f['sym'], Lin)]
        deltas = {}
        for f in nums:
            ds = []
            for b in backs:
                v = self.feat_val(f, 'next', b)
                if not isinstance(v, Lin):
                    ds = None
                    break
                ds.append(v - f['sym'])
            deltas[f['key']] = ds
        for f in nums:
            ds = deltas[f['key']]
            if ds is None:
                continue
            if all(b.poly.entails('ge', x) for x, b in zip(ds, backs)):
                invs.append(('lin', 'ge', ((f['key'], 1),), -f['init']))
            if all(b.poly.entails('ge', -x) for x, b in zip(ds, backs)):
                invs.append(('lin', 'ge', ((f['key'], -1),), f['init']))
            if entry.poly.entails('ge', f['init']):
                invs.append(('lin', 'ge', ((f['key'], 1),), K(0)))
            for ub in ((1 << 64) - 1, M62, (1 << 31) - 1, 255, 127):
                if entry.poly.entails('ge', K(ub) - f['init']):
                    invs.append(('lin', 'ge', ((f['key'], -1),), K(ub)))
            for lb in (-(1 << 31), -128):
                if entry.poly.entails('ge', f['init'] - lb):
                    invs.append(('lin', 'ge', ((f['key'], 1),), K(-lb)))
        for i, f in enumerate(nums):
            for g in nums[i + 1:]:
                a, b_ = deltas[f['key']], deltas[g['key']]
                if a is None or b_ is None:
                    continue
                if all(bk.poly.entails('eq', x - y) for x, y, bk in zip(a, b_, backs)):
                    invs.append(('lin', 'eq', ((f['key'], 1), (g['key'], -1)), g['init'] - f['init']))
                elif all(bk.poly.entails('eq', x + y) for x, y, bk in zip(a, b_, backs)):
                    invs.append(('lin', 'eq', ((f['key'], 1), (g['key'], 1)), -(f['init'] + g['init'])))
        for f in nums:
            if isinstance(f['init'], Lin):
                for h in hv:
                    if h['key'][0] == 'M' and h.get('sym') is not None and self.models.is_str(h['init']):
                        c0 = self.models.char_at(entry.copy(), h['init'], K(0), True)
                        if c0 is not None and entry.poly.entails('eq', c0 - f['init']):
                            invs.append(('chr', f['key'], h['key']))
        for f in feats:
            if isinstance(f['sym'], Ptr):
                if entry.eval(('isnull', f['init'])) is False:
                    invs.append(('nonnull', f['key']))
                # link relation  f == *(g + off)
                for g in feats:
                    if g is f or not isinstance(g['sym'], Ptr):
                        continue
                    gi = entry.norm(g['init'])
                    if gi.obj is None:
                        continue
                    for (o, off), v in list(entry.mem.items()):
                        if o == gi.obj and isinstance(v, Ptr) and entry.norm(v) == entry.norm(f['init']) and isinstance(off, int) and isinstance(gi.off, int):
                            invs.append(('ptreq', f['key'], g['cell'], off - gi.off))
            if isinstance(f['sym'], B):
                e = entry.eval(f['init'].c) if isinstance(f['init'], B) else None
                if e is not None:
                    invs.append(('iff', f['key'], e))
        return invs

    def exact_count(self, entry, top, backs, hv, fas):
        """does `top` describe exactly the states at the loop head? Only a counter moves, by
        one, and whatever keeps the loop going at some count did so at every smaller one"""
        live = [h for h in hv if not (h['init'] is None or h['init'] is UNDEF)]
        if len(backs) != 1 or len(live) != 1 or len(live[0]['feats']) != 1:
            return False
        f, b = live[0]['feats'][0], backs[0]
        x = f['sym']
        if not isinstance(x, Lin) or len(x.t) != 1 or not isinstance(f['init'], Lin):
            return False
        nx = self.feat_val(f, 'next', b)
        if not isinstance(nx, Lin) or nx - x != K(1) or not top.poly.entails('ge', x - f['init']):
            return False
        v = x.t[0][0]
        had = set(top.poly.ges)
        for g in b.poly.ges:
            if g not in had and dict(g.t).get(v, 0) > 0 and not top.poly.entails('ge', g):
                return False
        new = [l for l in b.poly.eqs if l not in top.poly.eqs]
        if any(v in l.vars() and not top.poly.entails('eq', l) for l in new):
            return False
        if any(v in l.vars() and not top.poly.entails('ne', l) for l in b.poly.nes if l not in top.poly.nes):
            return False
        for a, val in b.atoms.items():
            if a in top.atoms:
                continue
            if not (a[0] == 'bit' and any(fa[1] == a[1] and fa[3] == a[2] + 1 and fa[4] is val for fa in fas)):
                return False
        return all(ev[0] in ('bidx', 'sidx', 'vidx') for ev in b.ev[len(top.ev):])

    def forall_facts(self, entry, top, backs, feats):
        out = []
        if not backs:
            return out
        base = set(top.atoms)
        first = [(a, v) for a, v in backs[0].atoms.items() if a[0] == 'bit' and a not in base]
        for a, v in first:
            for f in feats:
                if not isinstance(f['sym'], Lin) or len(f['sym'].t) != 1:
                    continue
                x = f['sym'].t[0][0]
                cf = dict(a[2].t).get(x)
                if cf != 1:
                    continue
                ok = True
                for b in backs:
                    if b.eval(a) is not v:
                        ok = False
                    nx = self.feat_val(f, 'next', b)
                    if not isinstance(nx, Lin) or nx - f['sym'] != K(1):
                        ok = False
                # every other symbol in the index must be loop invariant
                hs = {g['sym'].t[0][0] for g in feats if isinstance(g['sym'], Lin) and g['sym'].t} - {x}
                if any(y in hs for y in a[2].vars()):
                    ok = False
                if ok:
                    lo = a[2].subst({x: f['init']})
                    out.append(('bit', a[1], lo, a[2] + 1, v))
        return out

    # ------------------------------------------------------------ values
    def val(self, st, o, ty):
        k = o[0]
        if k == 'reg':
            v = st.frames[-1].regs.get(o[1])
            if v is None:
                raise Unsupported(f'undefined register {o[1]} in {st.frames[-1].fn.dem}')
            return v
        if k == 'int':
            return K(o[1])
        if k == 'bool':
            return TRUE if o[1] else FALSE
        if k == 'null':
            return NULL
        if k == 'glb':
            n = self.prog.resolve(o[1])
            if self.prog.has_func(n) or self.prog.is_decl(n):
                return Fn(n)
            g = 'G:' + n
            if g not in st.objs:
                st.objs[g] = ('global', n, g)
            return Ptr(g, 0)
        if k == 'undef':
            return UNDEF
        if k == 'zero':
            if ty is not None and ty.k == 'struct':
                return Agg([self.zero(t) for t in ty.a[1]])
            return self.zero(ty)
        if k == 'cgep':
            b = self.val(st, o[2], None)
            off, t = 0, o[1]
            for n, ix in enumerate(o[3]):
                c = ix[1]
                if n == 0:
                    off += c * size_of(t)
                elif t.k == 'struct':
                    f, t = field_off(t, c)
                    off += f
                else:
                    t = t.a[1]
                    off += c * size_of(t)
            return Ptr(b.obj, add_off(b.off, off)) if isinstance(b, Ptr) else b
        if k == 'agg':
            return Agg([self.val(st, x, t) for t, x in o[1]])
        if k == 'fp':
            return Op('fp', o[1])
        return Op('const', str(o))

    def zero(self, ty):
        if ty is None or ty.k == 'int':
            return FALSE if ty is not None and ty.a == 1 else K(0)
        if ty.k == 'ptr':
            return NULL
        if ty.k == 'struct':
            return Agg([self.zero(t) for t in ty.a[1]])
        return K(0)

    def cond(self, st, v):
        """value used as i1 -> condition"""
        if isinstance(v, B):
            return v.c
        if isinstance(v, Lin):
            if v.is_const():
                return T_ if v.c & 1 else F_
            return ('cmp', 'ne', v)
        if isinstance(v, Op) and v.k == 'undef':
            raise Dead('branch on undefined value')
        return ('atom', v)

    def lin(self, st, v, w=None):
        """value used as an integer"""
        if isinstance(v, Lin):
            return v
        if isinstance(v, B):
            return K(1) if st.decide(v.c) else K(0)
        if isinstance(v, Ptr):
            if v.obj is None:
                return K(0)
            p = st.norm(v)
            if p.obj is None:
                return K(0)
            return Lin.var(('addr', p.obj)) + as_lin(p.off)
        if isinstance(v, Op):
            if v.k == 'undef':
                raise Dead('use of an uninitialised value')
            n = ('opq', v)
            return Lin.var(n)
        if isinstance(v, Fn):
            return Lin.var(('fn', v.name))
        raise Unsupported(f'integer use of {v}')

    def uns(self, st, l, w, d=0):
        """unsigned representative of l in [0, 2^w)"""
        if l.is_const():
            return K(l.c % (1 << w))
        if st.decide(('cmp', 'ge', l)):
            if st.decide(('cmp', 'ge', K((1 << w) - 1) - l)):
                return l
            return self.uns(st, l - (1 << w), w, self.deeper(d))
        return self.uns(st, l + (1 << w), w, self.deeper(d))

    def deeper(self, d):
        if d > 3:
            raise Unsupported('a value without bounds')
        return d + 1

    def sgn(self, st, l, w, d=0):
        h = 1 << (w - 1)
        if l.is_const():
            x = l.c % (1 << w)
            return K(x - (1 << w) if x >= h else x)
        if st.decide(('cmp', 'ge', K(h - 1) - l)):
            if st.decide(('cmp', 'ge', l + h)):
                return l
            return self.sgn(st, l + (1 << w), w, self.deeper(d))
        return self.sgn(st, l - (1 << w), w, self.deeper(d))

    def wrap(self, st, l, w):
        """some representative of l mod 2^w in [-2^(w-1), 2^w)"""
        if l.is_const():
            x = l.c
            if -(1 << (w - 1)) <= x < (1 << w):
                return l
            return K(x % (1 << w))
        for _ in range(4):
            if self.opaque_mul:
                break
            if not st.decide(('cmp', 'ge', K((1 << w) - 1) - l)):
                l = l - (1 << w)
            elif not st.decide(('cmp', 'ge', l + (1 << (w - 1)))):
                l = l + (1 << w)
            else:
                return l
        if self.opaque_mul:
            v = Lin.var(('mod', w, l))
            st.poly = st.poly.add('ge', v).add('ge', K((1 << w) - 1) - v)
            return v
        raise Unsupported('wrap')

    # ------------------------------------------------------------ instructions
    def simple(self, st, fr, ins):
        op, a, regs = ins.op, ins.a, fr.regs
        if op == 'alloca':
            o = st.new_obj('alloca', ins.res[1:])
            regs[ins.res] = Ptr(o, 0)
        elif op == 'load':
            p = self.val(st, a['ptr'], None)
            regs[ins.res] = self.load(st, p, a['ty'], ins)
        elif op == 'store':
            v = self.val(st, a['val'], a['ty'])
            p = self.val(st, a['ptr'], None)
            self.store(st, p, v, a['ty'], ins)
        elif op == 'gep':
            regs[ins.res] = self.gep(st, a)
        elif op == 'icmp':
            v = self.icmp(st, a)
            g = guards.guards(self.prog, fr.fn).get(id(ins))
            regs[ins.res] = v if g is None else self.guarded(st, fr, a, g, v)
        elif op == 'bin':
            regs[ins.res] = self.bin(st, a)
        elif op == 'cast':
            regs[ins.res] = v = self.cast(st, a)
            g = guards.guards(self.prog, fr.fn).get(id(ins))
            if g is not None and isinstance(v, Lin) and v.is_const() and v.c >= 1:
                if st.decide(('atom', ('long history', fr.fn.name, fr.block, fr.idx))):
                    regs[ins.res] = K(0)
        elif op == 'select':
            c = self.cond(st, self.val(st, a['cond'], None))
            regs[ins.res] = self.val(st, a['a'] if st.decide(c) else a['b'], a['ty'])
        elif op == 'extractvalue':
            v = self.val(st, a['val'], None)
            for i in a['idx']:
                if isinstance(v, Agg):
                    v = v.v[i]
                elif isinstance(v, Op) and v.k == 'undef':
                    v = UNDEF
                else:
                    v = v if i == 0 else Op('part', v, i)
            regs[ins.res] = v
        elif op == 'insertvalue':
            v = self.val(st, a['val'], a['ty'])
            if not isinstance(v, Agg):
                v = Agg([UNDEF] * len(a['ty'].a[1]))
            v = Agg(v.v)
            v.v[a['idx'][0]] = self.val(st, a['el'], None)
            regs[ins.res] = v
        elif op == 'unreachable':
            raise Dead('unreachable')
        elif op == 'phi':
            raise Unsupported('phi')
        elif op == 'fcmp':
            regs[ins.res] = B(('atom', ('fcmp', st.fresh('f'))))
        else:
            raise Unsupported(f'instruction {op} {a}')

    def gep(self, st, a):
        p = self.val(st, a['base'], None)
        if isinstance(p, Fn):
            raise Unsupported('gep on function')
        if isinstance(p, Op):
            if p.k == 'undef':
                raise Dead('use of an uninitialised pointer')
            if p.k == 'it' and len(a['idx']) == 1:
                return Op('it', p.a[0], p.a[1] + self.sgn(st, self.lin(st, self.val(st, a['idx'][0][1], a['idx'][0][0])), 64))
            return Op('gep', p)
        off = 0
        t = a['ty']
        for n, (ity, o) in enumerate(a['idx']):
            iv = self.val(st, o, ity)
            iv = self.lin(st, iv)
            if n == 0:
                s = size_of(t)
                off = add_off(off, iv.c * s if iv.is_const() else self.sgn(st, iv, ity.a) * s)
            elif t.k == 'struct':
                f, t = field_off(t, iv.c)
                off = add_off(off, f)
            else:
                t = t.a[1]
                s = size_of(t)
                off = add_off(off, iv.c * s if iv.is_const() else self.sgn(st, iv, ity.a) * s)
        return Ptr(p.obj, add_off(p.off, off))

    def icmp(self, st, a):
        x = self.val(st, a['a'], a['ty'])
        y = self.val(st, a['b'], a['ty'])
        pred = a['pred']
        if isinstance(x, Ptr) and isinstance(y, Ptr):
            if pred in ('eq', 'ne'):
                if y.obj is None:
                    c = ('isnull', x)
                elif x.obj is None:
                    c = ('isnull', y)
                else:
                    c = ('peq', x, y)
                e = st.eval(c)
                if e is not None:
                    c = T_ if e else F_
                return B(c if pred == 'eq' else neg(c))
            if x.obj == y.obj:
                dlt = as_lin(x.off) - as_lin(y.off)
                return B({'ult': ('cmp', 'ge', -dlt - 1), 'ule': ('cmp', 'ge', -dlt),
                          'ugt': ('cmp', 'ge', dlt - 1), 'uge': ('cmp', 'ge', dlt)}[pred])
            return B(('atom', ('pcmp', pred, x, y)))
        if isinstance(x, (Op, Fn)) or isinstance(y, (Op, Fn)):
            if x is UNDEF or y is UNDEF:
                raise Dead('use of an uninitialised value')
            if isinstance(x, Op) and isinstance(y, Op) and x.k == y.k == 'it':
                if pred in ('eq', 'ne'):
                    c = self.models.iteq(st, x, y)
                    return B(c if pred == 'eq' else neg(c))
                if x.a[0] == y.a[0]:
                    dlt = x.a[1] - y.a[1]
                    return B(simp(('cmp', 'ge', {'ult': -dlt - 1, 'ule': -dlt, 'ugt': dlt - 1, 'uge': dlt}[pred])))
            if isinstance(x, (Op, Fn)) and isinstance(y, Ptr) and y.obj is None:
                return FALSE if pred == 'eq' else TRUE
            if pred in ('eq', 'ne'):
                if x == y:
                    return TRUE if pred == 'eq' else FALSE
                c = ('atom', ('oeq', x, y))
                return B(c if pred == 'eq' else neg(c))
            return B(('atom', ('ocmp', pred, x, y)))
        if isinstance(x, B) and isinstance(y, Lin) and y.is_const() and pred in ('eq', 'ne'):
            v = y.c
            if v in (0, 1, -1):
                c = x.c if v else neg(x.c)
                return B(c if pred == 'eq' else neg(c))
            return FALSE if pred == 'eq' else TRUE
        if isinstance(x, B) and isinstance(y, B) and pred in ('eq', 'ne'):
            if x.c == y.c:
                return TRUE if pred == 'eq' else FALSE
            bx, by = st.decide(x.c), st.decide(y.c)
            return TRUE if (bx == by) == (pred == 'eq') else FALSE
        x, y = self.lin(st, x), self.lin(st, y)
        w = a['ty'].a if a['ty'].k == 'int' else 64
        if pred in ('eq', 'ne'):
            dlt = x - y
            if not dlt.is_const():
                nn = lambda l: st.poly.entails('ge', l) and st.poly.entails('ge', K((1 << w) - 1) - l)
                ss = lambda l: st.poly.entails('ge', l + (1 << (w - 1))) and st.poly.entails('ge', K((1 << (w - 1)) - 1) - l)
                if not ((nn(x) and nn(y)) or (ss(x) and ss(y))):
                    dlt = self.uns(st, x, w) - self.uns(st, y, w)
            elif dlt.c % (1 << w) == 0:
                dlt = K(0)
            return B(simp(('cmp', pred, dlt)))
        if pred[0] == 'u':
            x, y = self.uns(st, x, w), self.uns(st, y, w)
        else:
            x, y = self.sgn(st, x, w), self.sgn(st, y, w)
        k = pred[1:]
        l = {'lt': y - x - 1, 'le': y - x, 'gt': x - y - 1, 'ge': x - y}[k]
        return B(simp(('cmp', 'ge', l)))

    def guarded(self, st, fr, a, g, v):
        """a count that is small only because the analysis starts at the beginning"""
        kind, const, side = g
        r = st.eval(v.c) if isinstance(v, B) else None
        if r is None:
            return v
        x = self.val(st, a['b'] if side else a['a'], a['ty'])
        if kind == 'cmp':
            if not (isinstance(x, Lin) and x.is_const() and 1 <= x.c < const):
                return v
            b = guards.beyond(a['pred'], side)
            if b is None:
                b = a['pred'] == 'eq'
            if r == b:
                return v
        if st.decide(('atom', ('long history', fr.fn.name, fr.block, fr.idx))):
            return FALSE if r else TRUE
        return v

    def bin(self, st, a):
        op, ty = a['op'], a['ty']
        x = self.val(st, a['a'], ty)
        y = self.val(st, a['b'], ty)
        if op[0] == 'f':
            return Op('fp', st.fresh('fp'))
        w = ty.a if ty.k == 'int' else 64
        if isinstance(x, B) or isinstance(y, B):
            if w == 1 or (isinstance(x, B) and isinstance(y, B)):
                cx, cy = self.cond(st, x), self.cond(st, y)
                if op == 'and':
                    return B(simp(('and', cx, cy)))
                if op == 'or':
                    return B(simp(('or', cx, cy)))
                if op == 'xor':
                    if cy == T_:
                        return B(neg(cx))
                    if cx == T_:
                        return B(neg(cy))
                    return B(T_ if st.decide(cx) != st.decide(cy) else F_)
        if isinstance(x, (Ptr, Op)) and isinstance(y, (Ptr, Op)) and op == 'sub' and isinstance(x, Ptr) and isinstance(y, Ptr) and x.obj == y.obj:
            r = as_lin(x.off) - as_lin(y.off)
            return r
        if op == 'sub' and isinstance(x, Op) and isinstance(y, Op) and x.k == y.k == 'it' and x.a[0] == y.a[0]:
            return (x.a[1] - y.a[1]) * self.models.it_size(st, x)
        x, y = self.lin(st, x), self.lin(st, y)
        nsw = 'nsw' in a['fl']
        if op in ('add', 'sub') or (op == 'mul' and (x.is_const() or y.is_const())) or (op == 'shl' and y.is_const() and y.c < w):
            if op == 'add':
                r = x + y
            elif op == 'sub':
                r = x - y
            elif op == 'mul':
                r = x * y.c if y.is_const() else y * x.c
            else:
                r = x * (1 << y.c)
            if r.is_const():
                return self.wrap(st, r, w)
            if nsw:
                h = 1 << (w - 1)
                if not r.is_const():
                    st.poly = st.poly.add('ge', K(h - 1) - r).add('ge', r + h)
                return r
            return self.wrap(st, r, w)
        if x.is_const() and y.is_const():
            ux, uy = x.c % (1 << w), y.c % (1 << w)
            sx = ux - (1 << w) if ux >> (w - 1) else ux
            sy = uy - (1 << w) if uy >> (w - 1) else uy
            if op in ('udiv', 'urem', 'sdiv', 'srem') and uy == 0:
                raise Dead('division by zero')
            r = {'mul': lambda: ux * uy, 'and': lambda: ux & uy, 'or': lambda: ux | uy, 'xor': lambda: ux ^ uy,
                 'shl': lambda: ux << uy if uy < w else 0, 'lshr': lambda: ux >> uy if uy < w else 0,
                 'ashr': lambda: sx >> uy, 'udiv': lambda: ux // uy, 'urem': lambda: ux % uy,
                 'sdiv': lambda: int(sx / sy), 'srem': lambda: sx - sy * int(sx / sy)}[op]()
            return K(r % (1 << w))
        if op in ('lshr', 'udiv', 'urem', 'sdiv', 'srem', 'ashr') and y.is_const():
            if op in ('lshr', 'udiv', 'urem'):
                x = self.uns(st, x, w)
                pos = True
            else:
                x = self.sgn(st, x, w)
                pos = st.decide(('cmp', 'ge', x))
            dv = (1 << y.c) if op in ('lshr', 'ashr') else y.c
            if dv > 0 and (pos or op == 'ashr'):
                q = Lin.var(('div', x, dv))
                st.poly = st.poly.add('ge', x - q * dv).add('ge', q * dv + (dv - 1) - x)
                if pos:
                    st.poly = st.poly.add('ge', q)
                return q if op not in ('urem', 'srem') else x - q * dv
        if op == 'and' and y.is_const() and y.c >= 0 and (y.c & (y.c + 1)) == 0:
            # x mod 2^k
            x = self.uns(st, x, w)
            dv = y.c + 1
            if st.poly.entails('ge', K(y.c) - x):
                return x
            q = Lin.var(('div', x, dv))
            st.poly = st.poly.add('ge', x - q * dv).add('ge', q * dv + (dv - 1) - x).add('ge', q)
            return x - q * dv
        ux, uy = (x, y)
        v = Lin.var((op, w, ux, uy) if not (op in ('and', 'or', 'xor', 'mul') and repr(ux) > repr(uy)) else (op, w, uy, ux))
        st.poly = st.poly.add('ge', v).add('ge', K((1 << w) - 1) - v)
        return v

    def cast(self, st, a):
        op = a['op']
        v = self.val(st, a['val'], a['ty'])
        if op in ('bitcast', 'addrspacecast'):
            return v
        if v is UNDEF:
            return v
        if op == 'ptrtoint':
            if isinstance(v, Ptr):
                return self.lin(st, v)
            return v
        if op == 'inttoptr':
            if isinstance(v, Lin):
                if v.is_const() and v.c == 0:
                    return NULL
                for xi, c in v.t:
                    x = NAMES[xi]
                    if c == 1 and isinstance(x, tuple) and x[0] == 'addr':
                        r = v - Lin.var(x)
                        return Ptr(x[1], r.c if r.is_const() else r)
                raise Unsupported('inttoptr')
            return v
        if op in ('zext', 'sext', 'trunc'):
            w1, w2 = a['ty'].a, a['to'].a
            if isinstance(v, B):
                if op == 'sext':
                    return K(-1) if st.decide(v.c) else K(0)
                return v
            if isinstance(v, Op):
                return v
            v = self.lin(st, v)
            if op == 'zext':
                if w1 == 1:
                    return B(self.cond(st, v))
                return self.uns(st, v, w1)
            if op == 'sext':
                return self.sgn(st, v, w1)
            # trunc
            if w2 == 1:
                return B(simp(('cmp', 'ne', v))) if not v.is_const() else (TRUE if v.c & 1 else FALSE)
            if v.is_const():
                return K(v.c % (1 << w2))
            h = 1 << (w2 - 1)
            if st.poly.entails('ge', v + h) and st.poly.entails('ge', K((1 << w2) - 1) - v):
                if w2 == 8 and not st.poly.entails('ge', K(h - 1) - v):
                    # characters are signed
                    return v - (1 << w2) if st.decide(simp(('cmp', 'ge', v - h))) else v
                return v
            t, q = Lin.var(('trunc', w2, v)), Lin.var(('truncq', w2, v))
            st.poly = st.poly.add('ge', t + h).add('ge', K(h - 1) - t).add('eq', v - q * (1 << w2) - t)
            return t
        return Op('fp', st.fresh('fp'))

    def switch(self, st, ins):
        v = self.val(st, ins.a['val'], ins.a['ty'])
        w = ins.a['ty'].a
        for c, b in ins.a['cases']:
            cv = c[1]
            if c[0] == 'bool':
                cv = 1 if c[1] else 0
            if isinstance(v, B):
                if st.decide(v.c) == bool(cv & 1):
                    return b
                continue
            l = self.lin(st, v)
            dlt = l - cv
            if not dlt.is_const():
                lo, hi = -(1 << (w - 1)), (1 << w) - 1
                if cv < 0 and not (st.poly.entails('ge', K((1 << (w - 1)) - 1) - l) and st.poly.entails('ge', l - lo)):
                    dlt = self.uns(st, l, w) - (cv % (1 << w))
            if st.decide(simp(('cmp', 'eq', dlt))):
                return b
        return ins.a['default']

    # ------------------------------------------------------------ memory
    def where(self, st, ins=None):
        fr = st.frames[-1] if st.frames else None
        if fr is None:
            return '?'
        if ins is None:
            try:
                ins = fr.fn.blocks[fr.block].ins[fr.idx]
            except Exception:
                ins = None
        if ins is not None and ins.dbg:
            f, l = fr.fn.mod.loc(ins.dbg)
            return f'{self.prog.relpath(f)}:{l}'
        if fr.fn.defloc:
            return f'{self.prog.relpath(fr.fn.defloc[0])}:{fr.fn.defloc[1]}'
        return fr.fn.dem

    def access(self, st, p, ins, what):
        if isinstance(p, Op):
            if p is UNDEF:
                raise Dead('use of an uninitialised pointer')
            if p.k in ('it', 'rit', 'cit', 'citel', 'cend'):
                return self.access(st, self.models.deref(st, p, ins), ins, what)
            raise Unsupported(f'memory access through {p}')
        if isinstance(p, Fn):
            raise Unsupported('memory access through function pointer')
        p = st.norm(p)
        if p.obj is None:
            st.ev.append(('nullderef', what, self.where(st, ins)))
            raise Dead('null dereference at ' + self.where(st, ins))
        if p.obj in st.freed:
            st.ev.append(('uaf', p.obj, what, self.where(st, ins)))
        return p

    def load(self, st, p, ty, ins=None):
        p = self.access(st, p, ins, 'load')
        if isinstance(p.obj, tuple) and p.obj[0] == 'chr':
            return self.models.char_at(st, p.obj[1], p.obj[2])
        if ty.k == 'struct' and not (isinstance(st.mem.get((p.obj, p.off)), Agg)) and len(ty.a[1]) > 1:
            out = []
            for i in range(len(ty.a[1])):
                off, t = field_off(ty, i)
                out.append(self.load(st, Ptr(p.obj, add_off(p.off, off)), t, ins))
            return Agg(out)
        key = (p.obj, p.off)
        if p.obj in st.user.get('watchread', ()):
            st.ev.append(('read', p.obj, p.off, size_of(ty), self.where(st, ins)))
        if 'watchelem' in st.user and (st.meta(p.obj)[0] == 'elem' or isinstance(p.obj, tuple) and p.obj[0] == 'mel'):
            st.ev.append(('eread', p.obj, p.off, self.where(st, ins)))
        v = st.mem.get(key)
        if v is None and isinstance(p.off, Lin):
            for (o, off), x in st.mem.items():
                if o == p.obj and st.poly.entails('eq', as_lin(off) - p.off):
                    return x
        if v is None:
            v = self.lazy_load(st, p, ty)
        if st.meta(p.obj)[0] == 'global' and not self.prog.global_const(p.obj[2:]) and not self.prog.unshared(p.obj[2:]):
            st.ev.append(('gread', p.obj[2:], self.where(st, ins)))
        if isinstance(v, Ptr):
            v = st.norm(v)
            if ty.k == 'int':
                return self.lin(st, v)
        if ty.k == 'ptr' and isinstance(v, Lin):
            if v.is_const() and v.c == 0:
                return NULL
        if ty.k == 'int' and ty.a == 1 and isinstance(v, Lin):
            return B(self.cond(st, v))
        return v

    def lazy_load(self, st, p, ty):
        for d0, so, s0, n in reversed(st.cps.get(p.obj, [])):
            if isinstance(p.off, int) and d0 <= p.off < d0 + n:
                return self.load(st, Ptr(so, s0 + p.off - d0), ty)
        kind, label, root = st.meta(p.obj)
        if kind == 'global':
            init = self.prog.global_init(p.obj[2:])
            if init is not None:
                v = init.get(p.off) if isinstance(p.off, int) else None
                if v is not None:
                    if v[0] == 'fn':
                        n = self.prog.resolve(v[1])
                        return Fn(n)
                    if v[0] == 'int':
                        return K(v[1])
                    if v[0] == 'glb':
                        return self.val(st, ('glb', v[1]), None)
        elif kind in ('alloca', 'heap') and p.obj not in st.user.get('lazyobjs', ()):
            return UNDEF
        v = self.symbol(st, ('S', p.obj, p.off), ty, root)
        st.mem[(p.obj, p.off)] = v
        st.lazy[(p.obj, p.off)] = v
        return v

    def symbol(self, st, name, ty, root=None):
        if ty.k == 'ptr':
            st.objs.setdefault(name, ('sym', oname(name), root or name))
            return Ptr(name, 0)
        if ty.k == 'int':
            if ty.a == 1:
                return B(('atom', name))
            v = Lin.var(name)
            if ty.a == 8:
                lo, hi = -128, 127
            elif ty.a == 32:
                lo, hi = -(1 << 31), (1 << 31) - 1
            else:
                lo, hi = 0, (1 << ty.a) - 1
            st.poly = st.poly.add('ge', v - lo).add('ge', K(hi) - v)
            return v
        if ty.k == 'struct':
            return Agg([self.symbol(st, ('S', name, i), t, root) for i, t in enumerate(ty.a[1])])
        return Op('sym', name)

    def store(self, st, p, v, ty, ins=None):
        p = self.access(st, p, ins, 'store')
        if isinstance(p.obj, tuple) and p.obj[0] == 'chr':
            self.models.char_store(st, p.obj, v)
            return
        if isinstance(v, Agg):
            if ty.k == 'struct':
                for i, x in enumerate(v.v):
                    off, t = field_off(ty, i)
                    self.store(st, Ptr(p.obj, add_off(p.off, off)), x, t, ins)
                return
        kind, label, root = st.meta(p.obj)
        if kind == 'global' and self.prog.unshared(p.obj[2:]):
            pass
        elif kind == 'global':
            st.ev.append(('gwrite', p.obj[2:], self.where(st, ins)))
        elif kind != 'alloca':
            st.ev.append(('write', p.obj, p.off, v, self.where(st, ins)))
            if kind == 'sym' or True:
                self.clobber(st, p)
        if ty.k == 'int' and ty.a < 64:
            self.widths[(p.obj, p.off)] = ty.a
        st.mem[(p.obj, p.off)] = v

    def clobber(self, st, p):
        """a store through a symbolic pointer may hit any other symbolic object of the
        same data structure: forget what was lazily assumed about that field there"""
        if st.meta(p.obj)[0] != 'sym':
            return
        r = st.root(p.obj)
        for k in [k for k in st.mem if k[1] == p.off and k[0] != p.obj and st.meta(k[0])[0] == 'sym'
                  and st.root(k[0]) == r and k[0] != r and not isinstance(st.mem[k], Lin)]:
            if peq_key(Ptr(k[0]), Ptr(p.obj)) in st.atoms or st.separate(k[0], p.obj):
                continue
            nv = Ptr(st.fresh('alias'), 0)
            if isinstance(st.mem[k], Ptr):
                st.objs[nv.obj] = ('sym', nv.obj, r)
                st.mem[k] = nv
                st.lazy[k] = nv

    def copy_mem(self, st, dst, src, n, ins=None):
        dst = self.access(st, dst, ins, 'memcpy')
        src = self.access(st, src, ins, 'memcpy')
        if not (isinstance(dst.off, int) and isinstance(src.off, int)):
            raise Unsupported('memcpy symbolic offset')
        for k in [k for k in st.mem if k[0] == dst.obj and isinstance(k[1], int) and dst.off <= k[1] < dst.off + n]:
            del st.mem[k]
        for (o, off), v in list(st.mem.items()):
            if o == src.obj and isinstance(off, int) and src.off <= off < src.off + n:
                st.mem[(dst.obj, dst.off + off - src.off)] = v
        for (o, off), v in list(st.models.items()):
            if o == src.obj and src.off <= off < src.off + n:
                st.models[(dst.obj, dst.off + off - src.off)] = v
        if st.meta(src.obj)[0] in ('sym', 'global') or src.obj in st.cps:
            st.cps.setdefault(dst.obj, []).append((dst.off, src.obj, src.off, n))
        if st.meta(dst.obj)[0] not in ('alloca',):
            st.ev.append(('write', dst.obj, dst.off, 'memcpy', self.where(st, ins)))

    # ------------------------------------------------------------ calls
    def call(self, st, fr, ins):
        a = ins.a
        args = [self.val(st, o, t) if t.k != 'metadata' else None for t, o, at in a['args']]
        callee = a['callee']
        if callee[0] == 'glb':
            name = self.prog.resolve(callee[1])
            g = guards.guards(self.prog, fr.fn).get(id(ins))
            if g is not None and g[0] == 'min':
                ty = Ty_of(ins, self.prog.dem(name))
                x = self.load(st, args[g[2]], ty, ins)
                if isinstance(x, Lin) and x.is_const() and 1 <= x.c < g[1] and \
                        st.decide(('atom', ('long history', fr.fn.name, fr.block, fr.idx))):
                    o = st.new_obj('alloca', 'min')
                    self.store(st, Ptr(o, 0), x - 1, ty, ins)
                    self.setres(st, ins, Ptr(o, 0))
                    return 'done'
        else:
            f = self.val(st, callee, None) if callee[0] == 'reg' else None
            if isinstance(f, Fn):
                name = f.name
            elif isinstance(f, Ptr) and self.vcall:
                v = self.vcall(self, st, f, args, ins)
                if v is not NotImplemented:
                    if isinstance(v, Fn):
                        name = v.name
                    else:
                        self.setres(st, ins, v)
                        return 'done'
                else:
                    raise Unsupported('indirect call at ' + self.where(st, ins))
            else:
                raise Unsupported('indirect call at ' + self.where(st, ins))
        return self.call_named(st, ins, name, args)

    def setres(self, st, ins, v):
        if ins.res is not None:
            st.frames[-1].regs[ins.res] = v

    def call_named(self, st, ins, name, args):
        self.stats['calls'] += 1
        dem = self.prog.dem(name)
        for rx, h in self.hooks:
            if rx.search(dem):
                r = h(self, st, ins, dem, args)
                if r is NotImplemented:
                    continue
                if isinstance(r, list):
                    return r
                if isinstance(r, Fn):
                    name = r.name
                    break
                self.setres(st, ins, r)
                return 'done'
        r = self.models.call(st, ins, name, dem, args)
        if r is not NotImplemented:
            if isinstance(r, tuple) and r and r[0] == 'invoke':
                # model resolved an indirect call: (invoke, fnname, args)
                return self.enter(st, ins, r[1], r[2])
            if isinstance(r, list):
                return r
            self.setres(st, ins, r)
            return 'done'
        if self.prog.has_func(name):
            return self.enter(st, ins, name, args, False)
        # external without body: result unknown, effects recorded
        self.stats['unknown'].add(dem)
        st.ev.append(('extern', dem, tuple(args), self.where(st, ins)))
        st.notes.append(('extern', dem))
        rt = ins.a['rt']
        self.setres(st, ins, None if rt.k == 'void' else self.symbol(st, st.fresh('ext'), rt))
        return 'done'

    def enter(self, st, ins, name, args, hooks=True):
        dem = self.prog.dem(name)
        for rx, h in (self.hooks if hooks else ()):
            if rx.search(dem):
                r = h(self, st, ins, dem, args)
                if r is NotImplemented:
                    continue
                if isinstance(r, list):
                    return r
                self.setres(st, ins, r)
                return 'done'
        fn = self.prog.func_by_name(name)
        if sum(1 for f in st.frames if f.fn is fn) >= self.rec_limit:
            if '::~' in dem:
                st.ev.append(('dtor', st.norm(args[0]), dem, self.where(st, ins)))
                st.notes.append(('havoc', dem))
                self.setres(st, ins, None)
                return 'done'
            raise Unsupported(f'recursion into {dem}')
        self.push(st, fn, args, ins.res, ins.a['normal'])
        return 'inlined'


def Ty_of(ins, dem):
    return int_ty(64 if 'long' in dem.split('(')[0] else 32)


def simp(c):
    if c[0] == 'cmp' and c[2].is_const():
        v = c[2].c
        return T_ if {'ge': v >= 0, 'eq': v == 0, 'ne': v != 0}[c[1]] else F_
    if c[0] == 'and':
        if c[1] == F_ or c[2] == F_:
            return F_
        if c[1] == T_:
            return c[2]
        if c[2] == T_:
            return c[1]
    if c[0] == 'or':
        if c[1] == T_ or c[2] == T_:
            return T_
        if c[1] == F_:
            return c[2]
        if c[2] == F_:
            return c[1]
    return c


def same(st, a, b):
    if a == b:
        return True
    if isinstance(a, Lin) and isinstance(b, Lin):
        return st.poly.entails('eq', a - b)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return st.norm(a) == st.norm(b)
    return False
