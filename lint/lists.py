"""Helpers for the linked list of positions a State holds, in terms of the classes'
own accessors (no field offsets are assumed)."""
from common import *
from rules_pt import read_pos
from irparse import int_ty, PTR


def pos_acc(ctx):
    k = 'pos_acc'
    if k not in ctx.cache:
        ctx.cache[k] = {n: ctx.method('Position', n, '') for n in ('term_index', 'num_errors', 'is_special', 'next')}
        ctx.cache[k]['head'] = ctx.method('State', 'head', '')
    return ctx.cache[k]


def sym_obj(st, name, nonnull=True):
    st.objs[name] = ('sym', name, name)
    if nonnull:
        st.atoms[('isnull', name)] = False
    return Ptr(name, 0)


def distinct(st, ptrs):
    for a in range(len(ptrs)):
        for b in range(a):
            x, y = st.norm(ptrs[a]), st.norm(ptrs[b])
            if x.obj != y.obj:
                st.atoms[peq_key(x, y)] = False


def one(e, st, fn, args):
    outs = call1(e, st, fn, args)
    if len(outs) != 1:
        raise Unsupported(f'{fn.dem} does not have a single outcome ({len(outs)})')
    return outs[0]


def shape(ctx, e, st, sp, k, closed=True, limit=1 << 60):
    """materialise a list of k symbolic positions behind State *sp; closed: null after
    the k-th. Returns (state, [ptr], [(i, e, special cond)])"""
    acc = pos_acc(ctx)
    ptrs, vals = [], []
    st = one(e, st, acc['head'], [sp])
    cur = st.ret
    for n in range(k + 1):
        if n == k:
            if closed and not st.assume(('isnull', cur)):
                raise Unsupported('list shape')
            break
        st._assume_neg(('isnull', cur))
        ptrs.append(st.norm(cur))
        r = read_pos(ctx, e, st, cur, acc)
        if len(r) != 1:
            raise Unsupported('position accessors fork')
        st, i, er, s = r[0]
        st.poly = st.poly.add('ge', K(limit) - i).add('ge', K(limit) - er)
        vals.append((i, er, s))
        st = one(e, st, acc['next'], [cur])
        cur = st.ret
    distinct(st, ptrs)
    st.ev = []
    st.facts = []
    return st, ptrs, vals


def walk(ctx, e, st, sp, limit=12, start=None):
    """current list behind State *sp as far as it is materialised:
    (state, [ptr], end) with end in 'null' | 'open' | 'cycle'"""
    acc = pos_acc(ctx)
    s = st.copy()
    out = []
    if start is None:
        s = one(e, s, acc['head'], [sp])
        cur = s.ret
    else:
        cur = start
    while len(out) < limit:
        cur = s.norm(cur)
        nl = s.eval(('isnull', cur))
        if nl is True:
            return s, out, 'null'
        if nl is None:
            return s, out, 'open'
        if cur in out:
            return s, out, 'cycle'
        out.append(cur)
        s2 = one(e, s, acc['next'], [cur])
        nxt = s2.ret
        cur = nxt
        s = s2
    return s, out, 'open'


def vals_of(ctx, e, st, p):
    r = read_pos(ctx, e, st, p, pos_acc(ctx))
    if len(r) != 1:
        raise Unsupported('position accessors fork')
    return r[0]


def memsafety(ctx, R, inst, o, owned=()):
    """generic obligations on the effect trace"""
    for ev in o.ev:
        if ev[0] in ('uaf', 'doublefree', 'nullderef'):
            ctx.judge(R + '.memory', inst, False, o, ev[-1], {'uaf': 'uses freed memory', 'doublefree': 'frees twice',
                                                           'nullderef': 'dereferences a null pointer'}[ev[0]] + f' ({ev[1]})')
            return False
    return True


def dead_check(ctx, e, R, inst, allow=('throw',)):
    """paths that end in undefined behaviour"""
    for why, d in e.dead:
        if why.startswith('null dereference') or why.startswith('use of an uninit') or why.startswith('branch on undef') or 'empty container' in why:
            ctx.judge(R + '.memory', inst, False, d, why.split(' at ')[-1] if ' at ' in why else '', why)
    e.dead = []
