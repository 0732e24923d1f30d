#!/usr/bin/env python3
"""check.py <property> [--thorough]: decide one property on the sources under /repo.

exit 0: the property held on everything analysed; exit 1 + a VIOLATION line: some
construct breaks it; exit 2: the sources could not be analysed (they do not compile, or
every rule lost its subject)."""
import collections
import importlib
import json
import multiprocessing as mp
import os
import re
import resource
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

import common  # noqa: E402
from common import Ctx  # noqa: E402
from program import AnchorLost, BuildError, Program  # noqa: E402
from props import PROPS  # noqa: E402
from meta import TITLES, EXPLAIN, TRUST  # noqa: E402

EVID = os.path.join(ROOT, 'evidence')


MEMORY = 3600 << 20      # per worker


class Slow(BaseException):
    pass


def tag_of(rule):
    s = rule.rsplit('.', 1)[-1]
    return s if s in ('memory', 'leak', 'effects') else 'value'


def name_of(task):
    return f'{task[1]}({", ".join(map(str, task[2]))})'


def run_task(args):
    task, thorough, limit, deadline = args
    limit = int(max(2, min(limit, deadline - time.time())))
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    mod, fn, a, kw = task
    t0 = time.time()
    ctx = Ctx(PROG)
    ctx.thorough = thorough
    note = None

    def on_alarm(*_):
        raise Slow()
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(limit)
    try:
        getattr(importlib.import_module(mod), fn)(ctx, *a, **dict(kw))
    except AnchorLost as x:
        note = f'subject not found: {x}'
    except Slow:
        note = f'stopped after {limit} s'
    except (common.Unsupported, common.NeedFork) as x:
        note = f'outside the analysed fragment: {x}'
    except MemoryError:
        note = 'stopped: out of memory'
    except RecursionError:
        note = 'outside the analysed fragment: nesting'
    except Exception as x:  # an engine that meets code it does not model gives no verdict
        note = f'no verdict: {type(x).__name__}: {x} {traceback.format_exc()[-600:]}'
    finally:
        signal.alarm(0)
    agg = collections.OrderedDict()
    for o in ctx.obs:
        k = (o.rule, o.inst, o.status, o.where if o.status != 'ok' else '', o.msg if o.status != 'ok' else '')
        if k not in agg:
            agg[k] = [0, str(o.detail)[:3000] if o.status != 'ok' else '']
        agg[k][0] += 1
    return dict(task=name_of(task), note=note, wall=time.time() - t0, obs=[(k, n, d) for k, (n, d) in agg.items()],
                functions=sorted(PROG.dem(f) if f.startswith('_Z') else f for f in ctx.functions), paths=ctx.paths,
                calls=ctx.calls, loops=ctx.loops, instances=ctx.instances)


def known(pid):
    p = os.path.join(ROOT, 'known-findings.txt')
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'KNOWN-FINDING: property=(\S+) rule=(\S+) (.*)', l)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3).strip()))
    return out


def main():
    global PROG
    pid = sys.argv[1]
    thorough = '--thorough' in sys.argv or (os.environ.get('VERIF_TIER') == 'thorough' and '--quick' not in sys.argv)
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    spec = PROPS[pid]
    os.makedirs(EVID, exist_ok=True)
    PROG = Program()
    try:
        try:
            PROG.build()
        except BuildError as x:
            print(f'cannot analyse: the sources do not compile\n{x}')
            return 2
        limit = 3000 if thorough else 600
        deadline = t0 + (6 * 3600 if thorough else 780)
        jobs = [(t, thorough, limit, deadline) for t in spec['deep' if thorough else 'tasks']]
        # long tasks first
        jobs.sort(key=lambda j: WEIGHT.get(j[0][1], 1), reverse=True)
        with mp.get_context('fork').Pool(min(8, len(jobs)), maxtasksperchild=1) as pool:
            res = pool.map(run_task, jobs, chunksize=1)
        return report(pid, spec, res, thorough, seed, t0)
    finally:
        PROG.close()


WEIGHT = {'check_driver': 10, 'check_build': 9, 'check_pt': 5, 'check_iter': 4}


def report(pid, spec, res, thorough, seed, t0):
    rules = collections.OrderedDict()
    bad, maybe = [], []
    funcs, paths, calls, loops = set(), 0, 0, 0
    kn = known(pid)
    hit = []
    for r in res:
        funcs |= set(r['functions'])
        paths, calls, loops = paths + r['paths'], calls + r['calls'], loops + r['loops']
        if r['note']:
            maybe.append((r['task'], '', r['note'], 1))
        for (rule, inst, status, where, msg), n, d in r['obs']:
            if tag_of(rule) not in spec['tags']:
                continue
            if spec['only'] and not re.search(spec['only'], rule):
                continue
            c = rules.setdefault(rule, dict(ok=0, undecided=0, violation=0))
            c[status] += n
            if status == 'violation':
                k = next((x for x in kn if x[0] == rule and x[1] in f'{where} {msg}'), None)
                if k:
                    hit.append((rule, where, msg))
                else:
                    bad.append((rule, inst, where, msg, d))
            elif status == 'undecided':
                maybe.append((rule, where, msg, n))
    total = sum(sum(c.values()) for c in rules.values())
    done = sum(c['ok'] for c in rules.values())
    ev = dict(
        property=pid, tier='thorough' if thorough else 'quick', seed=seed, level='other',
        coverage=dict(
            explanation=EXPLAIN.get(pid, '') or TITLES.get(pid, pid),
            obligations=total, discharged=done, rules=rules,
            undecided=[dict(rule=a, where=b, why=c, count=n) for a, b, c, n in maybe][:60],
            functions_analysed=len(funcs), functions=sorted(f for f in funcs if 'liblevenshtein' in f or 'Murmur' in f)[:400],
            abstract_paths=paths, call_sites_interpreted=calls, loops_summarised=loops,
            tasks=[dict(task=r['task'], wall_s=round(r['wall'], 2), instances=r['instances']) for r in res],
            samples=[dict(rule=k, discharged=c['ok']) for k, c in list(rules.items())[:8]],
            trusted_base=TRUST),
        assumptions=TRUST, wall_s=round(time.time() - t0, 2), violations=len(bad))
    with open(os.path.join(EVID, f'{pid}.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for rule, where, msg in hit:
        print(f'KNOWN-FINDING: property={pid} {where}: {msg} [{rule}]')
    print(f'{pid} {TITLES.get(pid, "")}: {done}/{total} obligations discharged, {len(funcs)} functions, {paths} paths, {time.time() - t0:.1f} s')
    for a, b, c, n in maybe[:12]:
        print(f'  undecided: {a} {b}: {c[:300]} (x{n})')
    if bad:
        rp = os.path.join(EVID, f'{pid}.violation.txt')
        with open(rp, 'w') as f:
            for rule, inst, where, msg, d in bad:
                f.write(f'{where}: {msg}\n  rule {rule} on {inst}\n  {d}\n')
        seen = set()
        for rule, inst, where, msg, d in bad:
            if (where, msg) not in seen and len(seen) < 12:
                seen.add((where, msg))
                print(f'{where}: {msg} [{rule}]')
        print(f'VIOLATION property={pid} replay={rp}')
        return 1
    if not total:
        print('no rule found its subject')
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
