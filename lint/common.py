"""Obligations, contexts and helpers shared by the rules."""
import re
import time
from engine import *
from engine import as_lin
from lin import Unproved, find_model, fm_unsat, vname, NAMES
from models import Str, Seq, Bits, Coll, skel, split_targs
from program import AnchorLost, BuildError, Program

ALGS = ('STANDARD', 'TRANSPOSITION', 'MERGE_AND_SPLIT')
NS = 'liblevenshtein::'


class Ob:
    __slots__ = ('rule', 'inst', 'status', 'where', 'msg', 'detail')

    def __init__(self, rule, inst, status, where='', msg='', detail=None):
        self.rule, self.inst, self.status, self.where, self.msg, self.detail = rule, inst, status, where, msg, detail or {}


class Ctx:
    def __init__(self, prog):
        self.prog = prog
        self.obs = []
        self.functions = set()
        self.paths = 0
        self.calls = 0
        self.loops = 0
        self.instances = {}
        self.cache = {}
        self.shown = {}

    def ob(self, rule, inst, status, where='', msg='', detail=None):
        assert status in ('ok', 'violation', 'undecided')
        o = Ob(rule, inst, status, where, msg, detail)
        self.obs.append(o)
        return o

    def ok(self, rule, inst, where='', msg=''):
        return self.ob(rule, inst, 'ok', where, msg)

    def bad(self, rule, inst, where, msg, detail=None):
        return self.ob(rule, inst, 'violation', where, msg, detail)

    def maybe(self, rule, inst, where, msg):
        return self.ob(rule, inst, 'undecided', where, msg)

    def judge(self, rule, inst, good, st, where, msg, detail=None):
        """good -> ok; otherwise a violation only on a state reached without abstraction"""
        if good:
            self.ok(rule, inst, where)
        elif st.exact():
            f = self.feasible(st, (rule, inst, where, msg), good)
            if f:
                self.bad(rule, inst, where, msg, dict(detail or {}, path=st.facts[-25:]))
            elif f is None:
                self.maybe(rule, inst, where, msg)
        else:
            self.maybe(rule, inst, where, msg)
        return bool(good)

    def feasible(self, st, key, claim=None):
        """does the path condition, with the claim denied, have a solution?  None: not known"""
        n = self.shown.get(key, 0)
        if n >= 10:
            return True
        p = st.poly
        if isinstance(claim, Unproved):
            p = p.add(claim.kind, claim.l)
        if find_model(p.ges, p.eqs, p.nes) is not None:
            self.shown[key] = n + 1
            return True
        return False if p.unsat() else None

    def engine(self, **kw):
        e = Engine(self.prog, **kw)
        return e

    def account(self, e):
        self.functions |= e.stats['functions']
        self.paths += e.stats['paths']
        self.calls += e.stats['calls']
        self.loops += e.stats['loops']

    # -------------------------------------------------------------- anchors
    def alg_fn(self, base, alg):
        """the specialisation base<Algorithm::alg>"""
        k = ALGS.index(alg)
        fs = self.prog.find(r'(^|\s)liblevenshtein::' + base + r'<\(liblevenshtein::Algorithm\)' + str(k) + r'>\(')
        if not fs:
            raise AnchorLost(f'{base}<Algorithm::{alg}>')
        return fs[0]

    def method(self, cls, name, params=None, const=None):
        """method of a library class by demangled name (parameters optional)"""
        fs = []
        for d, l in self.prog.by_dem.items():
            p, t, ps = skel(d)
            if p == NS + cls + '::' + name and "'lambda" not in d and '$_' not in d:
                if params is None or ps == params:
                    fs += l
        if not fs:
            raise AnchorLost(f'{cls}::{name}')
        return fs[0]

    def locof(self, fn):
        fn.parse()
        if fn.defloc:
            return f'{self.prog.relpath(fn.defloc[0])}:{fn.defloc[1]}'
        return fn.dem


def foreign(o):
    """writes and frees of something that existed before"""
    mine = {ev[1] for ev in o.ev if ev[0] == 'new'}
    return [ev for ev in o.ev if ev[0] == 'gwrite' or ev[0] in ('write', 'free') and ev[1] not in mine]


def sat(st, extra):
    """is the state's integer part consistent with the extra constraints
    [(kind, lin)...]? Returns a model (dict) / None (empty) / 'unknown'"""
    p = st.poly
    for k, l in extra:
        p = p.add(k, l)
    if p.unsat():
        return None
    m = find_model(p.ges, p.eqs, p.nes)
    return m if m is not None else 'unknown'


def call1(e, st, fn, args):
    """call a function expected to be pure and single-path; (value, state)"""
    outs = e.call_fn(st, fn, args)
    for o in outs:
        o.user.pop('_pend', None)
    return outs


def show(m, names=None):
    if not isinstance(m, dict):
        return str(m)
    out = {}
    for v, x in m.items():
        if names is not None:
            if v in names:
                out[names[v]] = x
        else:
            nm = str(vname(v))
            if not nm.startswith('('):
                out[nm] = x
            elif len(nm) < 60:
                out[nm] = x
    return out
