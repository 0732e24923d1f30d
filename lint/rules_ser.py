"""Saving and loading dictionaries."""
import itertools
import os
import re
from common import *
from lists import *
from rules_tr import bool_states
from rules_dict import Graph, SHAPES, acc, guard, make_dawg, paths_to, final_sets, language, reach
from irparse import int_ty


def fns(ctx, name):
    fs = ctx.prog.find(r'^liblevenshtein::' + name + r'\(')
    if not fs:
        raise AnchorLost(name)
    return fs


def addresses(st, nodes):
    """distinct objects have distinct addresses, none of them zero"""
    ns = sorted(nodes)
    for i, n in enumerate(ns):
        v = Lin.var(('addr', n))
        st.poly = st.poly.add('ge', v - 1).add('ge', K((1 << 63) - 1) - v)
        for m in ns[:i]:
            st.poly = st.poly.add('ne', v - Lin.var(('addr', m)))


def placed(ctx, e, st, edges, finals, free=False):
    g = Graph(ctx, edges, finals)
    e.hooks = list(e.hooks) + g.hooks()
    g.place(st)
    g.label_facts(e, st)
    addresses(st, edges)
    want = paths_to(edges, finals)
    n = K(len(want))
    if free and want:
        # standing for a dictionary with any number of terms
        n = e.symbol(st, 'size', int_ty(64))
        st.poly = st.poly.add('ge', n - len(want)).add('ge', K(1 << 33) - n)
    st, dg = make_dawg(ctx, e, st, Ptr('root', 0), n)
    return g, st, dg, want, n


def ranked(e, st, edges, rank):
    """fix the order of the addresses"""
    ns = [n for n in rank]
    for a, b in zip(ns, ns[1:]):
        st.poly = st.poly.add('ge', Lin.var(('addr', b)) - Lin.var(('addr', a)) - 1)


def orders(edges, full):
    ns = sorted(edges)
    ps = list(itertools.permutations(ns))
    if full or len(ps) <= 6:
        return ps
    return [tuple(ns), tuple(ns[::-1]), ('root',) + tuple(n for n in ns if n != 'root'), tuple(n for n in ns if n != 'root') + ('root',)]


def same_language(ctx, R, inst, loc, e, s, g, root, want, what, detail):
    lang, nodes, bad = language(ctx, e, s, root)
    for s2, n in bad:
        ctx.judge(R + '.memory', inst, False, s2, loc, f'{what} holds a freed node', detail)
    for s2, ps in lang:
        ws = [tuple(g.lab(e, s2, n, j) for n, j in p) for p in want]

        def eq(a, b):
            return len(a) == len(b) and all(s2.poly.entails('eq', x - y) for x, y in zip(a, b))
        left = list(ps)
        for w in ws:
            hit = next((p for p in left if eq(p, w)), None)
            if not ctx.judge(R, inst, hit is not None, s2, loc, f'{what} lacks a term', dict(detail, missing=str(w), got=str(ps))):
                return
            left.remove(hit)
        ctx.judge(R, inst, not left, s2, loc, f'{what} holds a term that was not saved', dict(detail, extra=str(left)))


def check_roundtrip(ctx, part='all'):
    """a dictionary that is saved and loaded again holds the same terms"""
    R, inst = 'R.roundtrip', 'to_protobuf, from_protobuf'
    f_to, f_from = fns(ctx, 'to_protobuf')[0], fns(ctx, 'from_protobuf')[0]
    f_size, f_root = ctx.method('Dawg', 'size'), ctx.method('Dawg', 'root')
    f_dtor = ctx.method('SortedDawg', '~SortedDawg')
    cnt = [0]
    thorough = getattr(ctx, 'thorough', False)

    def run(edges, finals, rank):
        e = ctx.engine(max_states=50000)
        e.peel = 14
        e.rec_limit = 8
        st = State()
        g, st, dg, want, size = placed(ctx, e, st, edges, finals, True)
        ranked(e, st, edges, rank)
        det = dict(shape=str(edges), finals=str(finals))
        st.ev = []
        for o in call1(e, st, f_to, [dg]):
            cnt[0] += 1
            if not memsafety(ctx, R, inst, o):
                continue
            mine = {ev[1] for ev in o.ev if ev[0] == 'new'}
            w = [ev for ev in foreign(o) if ev[1] in edges or ev[1] == 'dawg' or ev[0] == 'gwrite']
            ctx.judge(R + '.effects', inst, not w, o, ctx.locof(f_to), 'saving a dictionary modifies it', det)
            m = o.norm(o.ret)
            if m.obj is None:
                ctx.judge(R, inst, False, o, ctx.locof(f_to), 'a dictionary is not translated', det)
                continue
            lost = [x for x in mine if x not in o.freed and x != m.obj]
            ctx.judge(R + '.leak', inst, not lost, o, ctx.locof(f_to), 'saving a dictionary leaks memory', det)
            o.ev = []
            for o2 in call1(e, o, f_from, [m]):
                if not memsafety(ctx, R, inst, o2):
                    continue
                loc = ctx.locof(f_from)
                r = o2.norm(o2.ret)
                if not ctx.judge(R, inst, r.obj is not None, o2, loc, 'a saved dictionary is not loaded', det):
                    continue
                q = one(e, o2, f_size, [r])
                got = e.lin(q, q.ret)
                ctx.judge(R, inst, q.poly.entails('eq', got - len(want)) or q.poly.entails('eq', got - size), q, loc, 'a loaded dictionary has another size than the saved one', det)
                q = one(e, o2, f_root, [r])
                same_language(ctx, R, inst, loc, e, q, g, q.norm(q.ret), want, 'the loaded dictionary', det)
                for d in call1(e, o2, f_dtor, [r]):
                    if memsafety(ctx, R, inst, d):
                        lost = [ev[1] for ev in d.ev if ev[0] == 'new' and ev[1] not in d.freed and ev[1] != r.obj]
                        ctx.judge(R + '.leak', inst, not lost, d, loc, 'a loaded dictionary does not free all its nodes', dict(det, lost=str(lost)))
        dead_check(ctx, e, R, inst)
        ctx.account(e)

    def allruns():
        for s in SHAPES:
            if part == 'small' and len(s) > 3 or part == 'large' and len(s) <= 3:
                continue
            for f in final_sets(s):
                for rk in orders(s, thorough):
                    run(s, f, rk)
    guard(R, inst, ctx, allruns)
    ctx.instances[f'{R}[{part}]'] = cnt[0]


# ------------------------------------------------------------------ messages
class Msg:
    """contents of a message: node ids, final ids, edges (source, label, target), root, size"""

    def __init__(self, nodes=(), finals=(), edges=(), root=None, size=None):
        self.nodes, self.finals, self.edges, self.root, self.size = nodes, finals, edges, root, size

    def fill(self, e, st, obj):
        def val(x):
            return x if isinstance(x, Lin) else K(x) if isinstance(x, int) else e.symbol(st, ('id', x), int_ty(64))
        st.user[('pbk', obj)] = True
        for k in list(st.user):
            if isinstance(k, tuple) and len(k) == 3 and k[0] in ('pbf', 'pbr') and k[1] == obj:
                del st.user[k]

        def rep(f, xs):
            os = []
            for x in xs:
                o = st.new_obj('elem', 'pb_' + f)
                st.mem[(o, 0)] = val(x)
                os.append(o)
            st.user[('pbr', obj, f)] = tuple(os)
        rep('node_id', self.nodes)
        rep('final_node_id', self.finals)
        es = []
        for s, l, t in self.edges:
            o = st.new_obj('elem', 'pb_edge')
            st.user[('pbk', o)] = True
            st.user[('pbf', o, 'source_id')] = val(s)
            st.user[('pbf', o, 'label')] = self.label(e, st, l)
            st.user[('pbf', o, 'target_id')] = val(t)
            es.append(o)
        st.user[('pbr', obj, 'edge')] = tuple(es)
        if self.root is not None:
            st.user[('pbf', obj, 'root_id')] = val(self.root)
        if self.size is not None:
            st.user[('pbf', obj, 'size')] = val(self.size)

    def label(self, e, st, l):
        v = e.symbol(st, ('lab',) + l, int_ty(8))
        st.poly = st.poly.add('ge', v + 128).add('ge', K(127) - v)
        return v

    def facts(self, e, st, names):
        vs = [e.symbol(st, ('id', n), int_ty(64)) for n in names]
        for i, v in enumerate(vs):
            st.poly = st.poly.add('ge', v - 1).add('ge', K((1 << 63) - 1) - v)
            if i:
                # the ids are in some order; which one does not matter to a reader of ids
                st.poly = st.poly.add('ge', v - vs[i - 1] - 1)

    def __repr__(self):
        return f'nodes {self.nodes}, finals {self.finals}, edges {self.edges}, root {self.root}, size {self.size}'


def whole(edges, finals):
    ns = tuple(sorted(edges))
    es = tuple((n, (n, j), t) for n in ns for j, t in enumerate(edges[n]))
    return Msg(ns, tuple(sorted(finals)), es, 'root', len(paths_to(edges, finals)))


def wire(ctx):
    """the fields of a saved dictionary in the order in which they are written (that of
    their numbers), each with whether its values are written together"""
    text = ''
    d = os.path.join(ctx.prog.repo, 'proto')
    for f in sorted(os.listdir(d)):
        if f.endswith('.proto'):
            text += open(os.path.join(d, f)).read()
    text = re.sub(r'//[^\n]*|/\*.*?\*/', '', text, flags=re.S)
    m = re.search(r'\bmessage\s+Dictionary\s*\{', text)
    if not m:
        raise AnchorLost('message Dictionary')
    i, depth, body = m.end(), 1, ''
    while i < len(text) and depth:
        depth += {'{': 1, '}': -1}.get(text[i], 0)
        body += text[i] if depth == 1 else ''
        i += 1
    out = []
    for f in re.finditer(r'(repeated\s+|optional\s+)?([\w.]+)\s+(\w+)\s*=\s*(\d+)\s*(\[[^\]]*\])?\s*;', body):
        many = (f.group(1) or '').strip() == 'repeated'
        scalar = re.fullmatch(r'u?int(32|64)|sint(32|64)|s?fixed(32|64)|bool', f.group(2))
        apart = many and (not scalar or re.search(r'packed\s*=\s*false', f.group(5) or ''))
        out.append((int(f.group(4)), f.group(3), bool(apart)))
    out.sort()
    if sorted(n for _, n, _ in out) != ['edge', 'final_node_id', 'node_id', 'root_id', 'size']:
        raise Unsupported('fields of the message')
    return [(n, apart) for _, n, apart in out]


def prefixes(m, order):
    """what is left of a message that was cut off between two fields"""
    names = dict(node_id='nodes', final_node_id='finals', edge='edges', root_id='root', size='size')
    units = []        # (field, how many of its values are there)
    for f, apart in order:
        v = getattr(m, names[f])
        n = len(v) if isinstance(v, tuple) else 1 if v else 0
        if n:
            units += [(f, k + 1) for k in range(n)] if apart else [(f, n)]
    out = []
    for k in range(len(units)):
        got = dict(units[:k])
        kw = {}
        for f, a in names.items():
            v = getattr(m, a)
            kw[a] = v[:got.get(f, 0)] if isinstance(v, tuple) else v if f in got else None
        out.append(Msg(**kw))
    return out[::-1]


def broken(m):
    """references to nodes that are not there"""
    out = []
    for i, (s, l, t) in enumerate(m.edges):
        out.append(Msg(m.nodes, m.finals, m.edges[:i] + ((s, l, 'absent'),) + m.edges[i + 1:], m.root, m.size))
        out.append(Msg(m.nodes, m.finals, m.edges[:i] + (('absent', l, t),) + m.edges[i + 1:], m.root, m.size))
    out.append(Msg(m.nodes, m.finals, m.edges, 'absent', m.size))
    for n in m.nodes:
        if n == 'root' or any(n in (s, t) for s, l, t in m.edges):
            out.append(Msg(tuple(x for x in m.nodes if x != n), m.finals, m.edges, m.root, m.size))
    return out


def odd(m):
    """malformed in other ways: nothing is said about the result, but it must be safe"""
    out = [Msg(m.nodes + m.nodes[:1], m.finals, m.edges, m.root, m.size), Msg(m.nodes, m.finals + ('absent',), m.edges, m.root, m.size),
           Msg(m.nodes + ('spare',), m.finals, m.edges, m.root, m.size)]
    if m.edges:
        out.append(Msg(m.nodes, m.finals, m.edges + m.edges[:1], m.root, m.size))
        for s, l, t in m.edges:
            up, k = {s}, 0
            while len(up) > k:
                k = len(up)
                up |= {x for x, _, y in m.edges if y in up}
            for u in m.nodes:
                if u != t and u not in up:
                    out.append(Msg(m.nodes, m.finals, m.edges + ((s, l, u),), m.root, m.size))
    return out


MSHAPES = [{'root': []}, {'root': ['a'], 'a': []}, {'root': ['a', 'a'], 'a': []}, {'root': ['a', 'b'], 'a': [], 'b': []}, {'root': ['a'], 'a': ['b'], 'b': []}, {'root': ['a', 'b'], 'b': ['a'], 'a': []}]


def check_messages(ctx, kind):
    """what from_protobuf makes of cut-off, dangling and otherwise malformed messages"""
    R, inst = 'R.load', 'from_protobuf'
    f_from = fns(ctx, 'from_protobuf')[0]
    f_dtor = ctx.method('SortedDawg', '~SortedDawg')
    f_root = ctx.method('Dawg', 'root')
    loc = ctx.locof(f_from)
    cnt = [0]
    order = wire(ctx) if kind == 'cut' else None
    gen = dict(cut=lambda m: prefixes(m, order), dangling=broken, odd=odd)[kind]
    suffix = {'cut': '.cut', 'dangling': '.dangling', 'odd': ''}[kind]
    say = {'cut': 'a dictionary that was cut off is loaded', 'dangling': 'a dictionary that refers to absent nodes is loaded'}

    def run(m):
        e = ctx.engine(max_states=20000)
        e.peel = 14
        st = State()
        st.objs['msg'] = ('heap', 'msg', 'msg')
        m.facts(e, st, ['a', 'b', 'root', 'absent', 'spare'])
        m.fill(e, st, 'msg')
        lb = [('lab', n, j) for n in ('root', 'a', 'b') for j in (0, 1)]
        ls = [e.symbol(st, x, int_ty(8)) for x in lb]
        for k in (0, 2, 4):
            st.poly = st.poly.add('ge', ls[k + 1] - ls[k] - 1)
        for o in call1(e, st, f_from, [Ptr('msg', 0)]):
            cnt[0] += 1
            if not memsafety(ctx, R, inst, o):
                continue
            r = o.norm(o.ret)
            if kind != 'odd':
                ctx.judge(R + suffix, inst, r.obj is None, o, loc, say[kind], dict(message=str(m)))
            if r.obj is None:
                lost = [ev[1] for ev in o.ev if ev[0] == 'new' and ev[1] not in o.freed]
                ctx.judge(R + '.leak', inst, not lost, o, loc, 'a refused message leaks memory', dict(message=str(m)))
            else:
                q = one(e, o, f_root, [r])
                ctx.judge(R + '.memory', inst, q.norm(q.ret).obj is not None, q, loc, 'a dictionary without a root is loaded', dict(message=str(m)))
                for d in call1(e, o, f_dtor, [r]):
                    if not memsafety(ctx, R, inst, d) or 'spare' in m.nodes:
                        continue
                    lost = [ev[1] for ev in d.ev if ev[0] == 'new' and ev[1] not in d.freed and ev[1] != r.obj]
                    ctx.judge(R + '.leak', inst, not lost, d, loc, 'a loaded dictionary does not free all its nodes', dict(message=str(m)))
        dead_check(ctx, e, R, inst)
        ctx.account(e)

    def allruns():
        for s in MSHAPES:
            for f in final_sets(s):
                for m in gen(whole(s, f)):
                    run(m)
    guard(R, inst, ctx, allruns)
    ctx.instances[f'{R}[{kind}]'] = cnt[0]


# ------------------------------------------------------------------ files and streams
APP, ATE, IN, OUT, TRUNC = 1, 2, 8, 16, 32


def overloads(ctx, name):
    """{kind of the last parameter: function}"""
    out = {}
    for f in fns(ctx, name):
        ps = split_targs(skel(f.dem)[2])
        t = ps[-1]
        k = 'stream' if 'stream' in t else 'path' if 'filesystem::' in t else 'string' if 'basic_string' in t else 'cstr' if 'char' in t else None
        if k:
            out[k] = f
    return out


def target(e, st, kind):
    """an argument of that kind; (value, the text it stands for)"""
    o = {'stream': 'stream', 'path': 'path', 'string': 'name', 'cstr': 'cname'}[kind]
    st.objs[o] = ('sym', o, o)
    st.atoms[('isnull', o)] = False
    if kind == 'string':
        return Ptr(o, 0), e.models.str_at(st, Ptr(o, 0))
    return Ptr(o, 0), None


def verdicts(o):
    """truth of everything the path learnt about parsing, writing and stream states"""
    out = []
    for a, v in o.atoms.items():
        if a[0] != 'atom':
            continue
        a = a[1]
        if a[0] == 'pbok':
            out.append((a, v))
        elif a[0] in ('sok', 'is_open'):
            out.append((a, v))
        elif a[0] in ('bad', 'eof'):
            out.append((a, not v))
    return out


def check_save(ctx, kind):
    """saving reports success exactly when everything was written out"""
    R, inst = 'R.save', f'serialize_protobuf ({kind})'
    ov = overloads(ctx, 'serialize_protobuf')
    if kind not in ov:
        raise AnchorLost(inst)
    fn = ov[kind]
    loc = ctx.locof(ov.get('cstr', fn) if kind != 'stream' else fn)
    cnt = [0]

    def run(edges, finals):
        e = ctx.engine(max_states=20000)
        e.peel = 14
        st = State()
        g, st, dg, want, _ = placed(ctx, e, st, edges, finals)
        ranked(e, st, edges, sorted(edges))
        a, txt = target(e, st, kind)
        st.ev = []
        for o in call1(e, st, fn, [dg, a]):
            cnt[0] += 1
            if not memsafety(ctx, R, inst, o):
                continue
            mine = {ev[1] for ev in o.ev if ev[0] == 'new'}
            lost = [x for x in mine if x not in o.freed]
            ctx.judge(R + '.leak', inst, not lost, o, loc, 'saving a dictionary leaks memory')
            w = [ev for ev in foreign(o) if ev[1] in edges or ev[1] == 'dawg']
            ctx.judge(R + '.effects', inst, not w, o, loc, 'saving a dictionary modifies it')
            opens = [ev for ev in o.ev if ev[0] == 'sopen']
            if kind != 'stream':
                for ev in opens:
                    named(ctx, R, inst, e, o, ev, kind, a, txt, loc, OUT)
            for o2, b in bool_states(e, o, o.ret):
                vs = verdicts(o2)
                pb = [v for x, v in vs if x[0] == 'pbok']
                if b:
                    if not ctx.judge(R, inst, bool(pb) and all(pb), o2, loc, 'success is reported although the dictionary was not written'):
                        continue
                    if kind != 'stream':
                        ctx.judge(R, inst, flushed(o2), o2, loc, 'success is reported without checking that the file was written out')
                else:
                    ctx.judge(R, inst, not all(v for x, v in vs) or not vs, o2, loc, 'failure is reported although everything succeeded')
        dead_check(ctx, e, R, inst)
        ctx.account(e)
    guard(R, inst, ctx, lambda: [run({'root': ['a'], 'a': []}, {'a'}), run({'root': []}, set()), run({'root': ['a', 'a'], 'a': []}, {'a', 'root'})])
    ctx.instances[f'{R}[{kind}]'] = cnt[0]


def flushed(o):
    """a good stream state was seen after the last write, and after a flush or close"""
    last = max([i for i, ev in enumerate(o.ev) if ev[0] == 'pb' and ev[1].startswith('Serialize')], default=None)
    if last is None:
        return False
    fl = [i for i, ev in enumerate(o.ev) if ev[0] in ('sflush', 'sclose') and i > last]
    if not fl:
        return False
    for i, ev in enumerate(o.ev):
        if ev[0] == 'sstate' and i > fl[0] and o.atoms.get(('atom', ('sok', ev[1], ev[3]))) is True:
            return True
    return False


def named(ctx, R, inst, e, o, ev, kind, a, txt, loc, need):
    """the file opened is the one asked for, in a mode that reads or replaces it"""
    args = ev[3]
    if not args:
        return
    p = args[0]
    if isinstance(p, Ptr):
        p = o.norm(p)
        if kind == 'cstr':
            ctx.judge(R, inst, p == a, o, ev[-1], 'another file than the one named is opened')
        elif kind == 'string':
            good = p == a or isinstance(p.obj, tuple) and p.obj[0] == 'cstr' and p.obj[1] == txt
            ctx.judge(R, inst, good, o, ev[-1], 'another file than the one named is opened')
    if len(args) > 1 and isinstance(args[1], Lin) and args[1].is_const():
        m = args[1].c
        if need == OUT:
            good = (m & OUT or 'ofstream' in ev[2]) and (m & TRUNC or not m & (APP | IN | ATE))
            ctx.judge(R, inst, bool(good), o, ev[-1], 'the file is opened in a mode that keeps its old contents')
        else:
            good = (m & IN or 'ifstream' in ev[2]) and not m & (TRUNC | ATE)
            ctx.judge(R, inst, bool(good), o, ev[-1], 'the file is opened in a mode that does not read it from the start')


def check_read(ctx, kind):
    """loading yields a dictionary exactly when the data could be read"""
    R, inst = 'R.read', f'deserialize_protobuf ({kind})'
    ov = overloads(ctx, 'deserialize_protobuf')
    if kind not in ov:
        raise AnchorLost(inst)
    fn = ov[kind]
    loc = ctx.locof(ov.get('stream', fn))
    f_root, f_size, f_dtor = ctx.method('Dawg', 'root'), ctx.method('Dawg', 'size'), ctx.method('SortedDawg', '~SortedDawg')
    cnt = [0]

    def run(edges, finals):
        e = ctx.engine(max_states=20000)
        e.peel = 14
        m = whole(edges, finals)
        e.models.pbparse = lambda s, obj: m.fill(e, s, obj)
        st = State()
        a, txt = target(e, st, kind)
        m.facts(e, st, ['a', 'b', 'root'])
        g = Graph(ctx, edges, finals)
        g.label_facts(e, st)
        want = paths_to(edges, finals)
        st.ev = []
        for o in call1(e, st, fn, [a]):
            cnt[0] += 1
            if not memsafety(ctx, R, inst, o):
                continue
            for ev in [ev for ev in o.ev if ev[0] == 'sopen']:
                if kind != 'stream':
                    named(ctx, R, inst, e, o, ev, kind, a, txt, loc, IN)
            r = o.norm(o.ret)
            vs = verdicts(o)
            pb = [v for x, v in vs if x[0] == 'pbok']
            if r.obj is None:
                ctx.judge(R, inst, not all(v for x, v in vs) or not vs, o, loc, 'nothing is loaded although the data was read')
                lost = [ev[1] for ev in o.ev if ev[0] == 'new' and ev[1] not in o.freed]
                ctx.judge(R + '.leak', inst, not lost, o, loc, 'a failed load leaks memory')
                continue
            if not ctx.judge(R, inst, bool(pb) and all(pb), o, loc, 'a dictionary is returned although the data could not be read'):
                continue
            q = one(e, o, f_size, [r])
            ctx.judge(R, inst, q.poly.entails('eq', e.lin(q, q.ret) - len(want)), q, loc, 'the loaded dictionary has another size')
            q = one(e, o, f_root, [r])
            same_language(ctx, R, inst, loc, e, q, g, q.norm(q.ret), want, 'the loaded dictionary', {})
            for d in call1(e, o, f_dtor, [r]):
                if memsafety(ctx, R, inst, d):
                    lost = [ev[1] for ev in d.ev if ev[0] == 'new' and ev[1] not in d.freed and ev[1] != r.obj]
                    ctx.judge(R + '.leak', inst, not lost, d, loc, 'a loaded dictionary does not free all its nodes', dict(lost=str(lost)))
        dead_check(ctx, e, R, inst)
        ctx.account(e)
    guard(R, inst, ctx, lambda: [run({'root': ['a'], 'a': []}, {'a'}), run({'root': []}, set()), run({'root': ['a', 'a'], 'a': []}, {'a', 'root'})])
    ctx.instances[f'{R}[{kind}]'] = cnt[0]
