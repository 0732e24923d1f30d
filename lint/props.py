"""Which rules decide which property.

A task is (module, function, args, thorough-args). A property takes, from the tasks it
lists, the obligations whose tag is in its set: 'value' (what is computed), 'memory'
(use after free, double free, null or out-of-bounds access), 'leak', 'effects'."""

ALGS = ('STANDARD', 'TRANSPOSITION', 'MERGE_AND_SPLIT')
RES = ('string', 'candidate')


def t(mod, fn, *args, **kw):
    return (mod, fn, args, tuple(sorted(kw.items())))


def transition(alg):
    return [t('rules_pt', 'check_pt', alg), t('rules_tr', 'check_compare', alg), t('rules_tr', 'check_subsumes', alg),
            t('rules_tr', 'check_merge', alg), t('rules_tr', 'check_unsub'), t('rules_st', 'check_sort'),
            t('rules_st', 'check_dist', alg)]


def pipeline(alg, ress=RES):
    ts = transition(alg) + [t('rules_st', 'check_str', 'Intersection'), t('rules_dict', 'check_node'), t('rules_st', 'check_free')]
    for r in ress:
        ts += [t('rules_st', 'check_init', alg, r), t('rules_st', 'check_step', alg, r), t('rules_lq', 'check_driver', alg, r)]
    return ts


def allalgs(f):
    out = []
    for a in ALGS:
        out += f(a)
    return out


BUILD = [t('rules_dict', 'check_build', c) for c in ('short', 'pairs', 'equal', 'triple')]
KINDS = [t('rules_dict', 'check_build', 'kinds', k) for k in ('list', 'set')]
MANUAL = [t('rules_dict', 'check_manual', l) for l in ((1, 1), (1, 1, 1), (2, 1, 2), (0, 1, 0), (2, 2))]
DEEP = [t('rules_dict', 'check_build', c) for c in ('deep', 'deep3', 'deep4', 'deep5', 'deep6')]
NODE = [t('rules_dict', 'check_node')]
READ = [t('rules_dict', 'check_contains'), t('rules_dict', 'check_basic'), t('rules_dict', 'check_iter')]
EQ = [t('rules_eq', f) for f in ('check_eq_node', 'check_eq_dawg', 'check_hash_node', 'check_hash_dawg', 'check_pair', 'check_murmur')]
TRIP = [t('rules_ser', 'check_roundtrip')]
SAVE = [t('rules_ser', 'check_save', k) for k in ('stream', 'cstr', 'string', 'path')]
LOAD = [t('rules_ser', 'check_read', k) for k in ('stream', 'cstr', 'string', 'path')]
MSG = [t('rules_ser', 'check_messages', k) for k in ('cut', 'dangling', 'odd')]
DIST = [t('rules_memo', 'check_distance', a, p) for a in ALGS for p in ('long', 'mid', 'short')]
LOCK = [t('rules_memo', 'check_lock', a) for a in ALGS]
STEP = [t('rules_memo', 'check_step', a) for a in ALGS]

V, M, L, E = 'value', 'memory', 'leak', 'effects'

PROPS = {}


def prop(pid, tasks, tags, only=None, deep=()):
    def uniq(l):
        seen, out = set(), []
        for x in l:
            if x not in seen:
                seen.add(x)
                out.append(x)
        return out
    PROPS[pid] = dict(tasks=uniq(tasks), tags=set(tags), only=only, deep=uniq(list(tasks) + list(deep)))


ALL = [V, M, L, E]
QUERY = allalgs(pipeline)
FREES = r'\.(memory|leak|fresh)$|^R\.free'

prop('C01', pipeline('STANDARD'), [V, M])
prop('C02', pipeline('TRANSPOSITION'), [V, M])
prop('C03', pipeline('MERGE_AND_SPLIT'), [V, M])
prop('C04', QUERY, [V, M])
prop('C05', QUERY, [V, M], r'^R\.(query|step|init|sort|merge|unsubsume|node|str|free)')
prop('C06', QUERY, [V, M])
prop('C07', QUERY + READ + NODE + EQ + TRIP + SAVE + [t('rules_static', 'check_static', 'query')], ALL, r'\.effects$|^R\.static')
prop('C08', QUERY, ALL, FREES)
prop('C09', BUILD + KINDS + MANUAL + [t('rules_dict', 'check_frozen')], [V, M], r'\.(sorted|add|frozen|memory)$|^R\.fixed', DEEP)
NOTMIN = r'^(?!.*\.minimal$)'
prop('C10', BUILD + KINDS + MANUAL + NODE + READ[:2] + EQ[:1], [V, M], NOTMIN, DEEP)
prop('C11', BUILD + KINDS + MANUAL + NODE + READ, [V, M], NOTMIN, DEEP)
prop('C12', EQ, [V, M])
prop('C13', BUILD + KINDS + MANUAL + TRIP + MSG + READ + [t('rules_dict', 'check_destroy')], ALL, FREES + r'|^R\.(destroy|manual)', DEEP)
prop('C14', TRIP + SAVE + LOAD, [V, M])
prop('C15', SAVE + LOAD + MSG, [V, M, L])
prop('C16', DIST + STEP + EQ[4:], [V, M])
prop('C17', LOCK + DIST + [t('rules_static', 'check_static', 'distance')], ALL, r'^R\.lock|\.lock$|^R\.static|\.effects$')
prop('C18', [t('rules_static', 'check_owner')], ALL)
prop('C19', MSG, [V, M, L])
prop('C20', [t('rules_dict', 'check_frozen')] + BUILD[:2] + KINDS + MANUAL + TRIP, [V, M], r'\.(frozen|add|memory)$|^R\.(fixed|manual|roundtrip)', DEEP)
prop('C21', BUILD + KINDS + MANUAL + EQ[:1] + EQ[2:3], [V, M], r'\.(minimal|memory)$|^R\.(eq|hash)', DEEP)
