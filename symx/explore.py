"""Path exploration, on several processes."""
import collections
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import z3

from symx import core, rt, xapi
from symx.core import Control, Cut, Engine, Infeasible, PathLimit, Unsupported


def run_path(e, fn, prefix, model, snapshot, tier):
    """execute one path; returns a result dict (or None if infeasible)"""
    snapshot.restore()
    rt.CASE_MODELS.clear()
    core.SymStr._n = 0
    e.begin(prefix, model)
    core.set_engine(e)
    X = xapi.SymX(e)
    X.tier = tier
    res = {'status': 'ok', 'msg': None}
    try:
        fn(X)
    except xapi.CheckFailed as exc:
        res['status'], res['msg'] = 'violation', exc.msg
    except Infeasible:
        e.stats.infeasible += 1
        e.active = False
        return None
    except Cut as exc:
        e.stats.cut += 1
        res['status'], res['msg'] = 'cut', str(exc)
    except PathLimit as exc:
        e.stats.limit += 1
        res['status'], res['msg'] = 'limit', str(exc)
    except Unsupported as exc:
        e.stats.unsupported += 1
        res['status'], res['msg'] = 'unsupported', str(exc)
        e.stats.note('unsupported: ' + str(exc)[:100])
        if os.environ.get('SYMX_DEBUG'):
            traceback.print_exc()
    except RecursionError as exc:
        res['status'], res['msg'] = 'limit', 'recursion'
        e.stats.limit += 1
    except z3.Z3Exception as exc:
        e.stats.unsupported += 1
        res['status'], res['msg'] = 'unsupported', 'z3: ' + str(exc)[:200]
        e.stats.note('unsupported: z3 exception')
        if os.environ.get('SYMX_DEBUG'):
            traceback.print_exc()
    except Exception as exc:
        tb = traceback.extract_tb(exc.__traceback__)
        inside = any('/oidcmsg/' in f.filename for f in tb)
        res['status'] = 'escaped' if inside else 'error'
        res['msg'] = 'unexpected %s: %s' % (type(exc).__name__, str(exc)[:300])
        res['tb'] = ''.join(traceback.format_exception(exc))[-2500:]
    finally:
        e.active_notes = X.notes
    e.stats.paths += 1
    m = e.get_model()
    if m is None:
        # the path condition could not be confirmed satisfiable (solver gave up)
        res['status'] = 'unconfirmed' if res['status'] != 'error' else 'error'
        res['values'] = {}
    else:
        vals = {}
        for name, (kind, z) in X.inputs.items():
            if kind == 'pick':
                vals[name] = z
                continue
            v = m.eval(z, model_completion=True)
            vals[name] = core.unesc(v.as_string()) if kind == 'str' else v.as_long()
        res['values'] = vals
        res['notes'] = [(k, xapi.ev(s, m)) for k, s in X.notes]
    res['tainted'] = list(e.tainted)
    res['reached'] = sorted(X.reached)
    e.active = False
    return res


def explore_slice(e, fn, prefixes, budget, snapshot, tier):
    t0 = time.time()
    stack = list(prefixes)
    results = []
    while stack and (time.time() - t0 < budget or not results):
        p, m = stack.pop()
        r = run_path(e, fn, p, m, snapshot, tier)
        stack.extend(e.alts)
        if r is not None:
            results.append(r)
        elif time.time() - t0 >= budget:
            break
    return results, [(p, core.dump_model(m)) for p, m in stack]


def worker(cases, tasks, out, snapshot, tier):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    z3.set_param('smt.random_seed', 0)
    e = Engine()
    while True:
        t = tasks.get()
        if t is None:
            break
        case, prefixes, budget, left = t
        e.stats = core.Stats()
        try:
            results, rest = explore_slice(e, cases[case], prefixes, min(budget, left), snapshot,
                                          tier)
            out.put((case, results, rest, e.stats.dump(), None))
        except BaseException:
            out.put((case, [], [], e.stats.dump(), traceback.format_exc()))


def explore(cases, snapshot, tier, total_budget, nproc=8, log=None, case_budget=None):
    ctx = mp.get_context('fork')
    tasks, out = ctx.Queue(), ctx.Queue()
    procs = [ctx.Process(target=worker, args=(cases, tasks, out, snapshot, tier), daemon=True)
             for _ in range(nproc)]
    for p in procs:
        p.start()
    stats = {c: core.Stats() for c in cases}
    results = {c: [] for c in cases}
    errors = []
    pending = collections.deque((c, [([], None)]) for c in cases)
    busy = 0
    t0 = time.time()
    unexplored = {c: 0 for c in cases}
    spent = {c: 0.0 for c in cases}
    cpu0 = {}
    while pending or busy:
        left = total_budget - (time.time() - t0)
        if left <= 0:
            for c, ps in pending:
                unexplored[c] += len(ps)
            pending.clear()
            if not busy:
                break
        while pending and busy < nproc:
            c, ps = pending.popleft()
            b = 0.1 if len(pending) + busy < nproc else 0.8
            tasks.put((c, ps, b, max(left, 0.01)))
            busy += 1
        try:
            c, rs, rest, st, err = out.get(timeout=max(5.0, left + 60))
        except Exception:
            errors.append('a worker did not answer')
            break
        busy -= 1
        stats[c].merge(st)
        results[c].extend(rs)
        if err:
            errors.append(err)
        if rest:
            # hand out in pieces
            free = max(1, nproc - busy - len(pending))
            k = max(1, min(free, len(rest)))
            for i in range(k):
                pending.append((c, rest[i::k]))
    for _ in procs:
        tasks.put(None)
    for p in procs:
        p.join(timeout=1)
        if p.is_alive():
            p.kill()
    return results, stats, unexplored, errors, time.time() - t0
