#!/usr/bin/env python3-vt
"""Decide one property:  run.py <ID> [--tier quick|thorough] [--case NAME] [--replay FILE]"""
import argparse
import importlib
import json
import os
import subprocess
import sys
import threading
import time
import warnings

sys.dont_write_bytecode = True
warnings.simplefilter('ignore')
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO_SRC = os.environ.get('SYMX_REPO_SRC', '/repo/src')
VENV_PY = '/opt/venv/bin/python'
sys.path.insert(0, VERIF)
sys.path.append('/opt/venv/lib/python3.12/site-packages')
os.environ.setdefault('TZ', 'UTC')
time.tzset()
sys.setrecursionlimit(5000)
import logging  # noqa
logging.disable(logging.CRITICAL)


class Replayers:
    def __init__(self, module, n=8):
        self.module, self.n = module, n

    def run(self, reqs):
        """reqs: list of dicts; returns {id: answer}"""
        out, lock, it = {}, threading.Lock(), iter(reqs)

        def loop():
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', SYMX_REPO_SRC=REPO_SRC, TZ='UTC')
            p = subprocess.Popen([VENV_PY, os.path.join(VERIF, 'symx', 'replayer.py'), self.module],
                                 stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                 stderr=subprocess.DEVNULL if not os.environ.get('SYMX_DEBUG')
                                 else None, text=True, env=env)
            try:
                while True:
                    with lock:
                        r = next(it, None)
                    if r is None:
                        break
                    p.stdin.write(json.dumps(r) + '\n')
                    p.stdin.flush()
                    line = p.stdout.readline()
                    if not line:
                        break
                    a = json.loads(line)
                    with lock:
                        out[a['id']] = a
            finally:
                try:
                    p.stdin.close()
                except OSError:
                    pass
                p.wait()
        ths = [threading.Thread(target=loop) for _ in range(min(self.n, max(1, len(reqs) // 8 + 1)))]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        return out


def same(sym, con):
    """does the concrete observation match the symbolic one?"""
    if isinstance(sym, dict):
        if '__any__' in sym:
            return True
        if '__set__' in sym:
            return isinstance(con, dict) and '__set__' in con and _multi(
                sym['__set__'], con['__set__'])
        if '__dict__' in sym:
            return isinstance(con, dict) and '__dict__' in con and _multi(
                sym['__dict__'], con['__dict__'])
    if isinstance(sym, (list, tuple)):
        return isinstance(con, list) and len(sym) == len(con) and all(
            same(a, b) for a, b in zip(sym, con))
    return type(sym) is type(con) and sym == con


def _multi(a, b):
    if len(a) != len(b):
        return False
    b = list(b)
    for x in a:
        for i, y in enumerate(b):
            if same(x, y):
                del b[i]
                break
        else:
            return False
    return True


def load_known():
    p = os.path.join(VERIF, 'known_findings.jsonl')
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('{'):
                out.append(json.loads(line))
    return out


def known_match(known, pid, case, r):
    for k in known:
        if k.get('property') == pid and k.get('case') == case and k.get('msg') == r['msg'] and all(
                r['values'].get(n) in v for n, v in k.get('when', {}).items()):
            return k
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--case', action='append')
    ap.add_argument('--replay')
    ap.add_argument('--budget', type=float)
    ap.add_argument('--dump', action='store_true')
    ap.add_argument('--nproc', type=int, default=8)
    a = ap.parse_args()
    pid = a.pid
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    modname = 'harness.%s' % pid.lower()
    t0 = time.time()

    if a.replay:
        req = json.load(open(a.replay))
        ans = Replayers(modname, 1).run([dict(req, id=0)])[0]
        print(json.dumps(ans, indent=1))
        return 1 if ans['status'] in ('violation', 'escaped') else 0

    from symx import loader, rt, tm, libs, state, explore, core  # noqa
    loader.install({'oidcmsg': REPO_SRC, 'harness': VERIF})
    try:
        mod = importlib.import_module(modname)
    except BaseException as exc:
        import traceback
        traceback.print_exc()
        print('ERROR property=%s the code under test could not be loaded: %r' % (pid, exc))
        return 2
    cases = {k: v for k, v in mod.CASES.items() if not a.case or k in a.case}
    if a.tier == 'quick':
        cases = {k: v for k, v in cases.items() if k not in getattr(mod, 'THOROUGH_ONLY', ())}
    snapshot = state.Snapshot()
    budget = a.budget or (getattr(mod, 'QUICK_BUDGET', 150) if a.tier == 'quick' else getattr(
        mod, 'THOROUGH_BUDGET', 600))
    results, stats, unexplored, errors, wall_x = explore.explore(
        cases, snapshot, a.tier, budget, a.nproc)

    # ---- replay on the real code
    reqs, ref = [], {}
    cap = 2500 if a.tier == 'quick' else 8000
    allp = [(c, r) for c in cases for r in results[c]]
    must = [(c, r) for c, r in allp if r['status'] in ('violation', 'escaped', 'error')]
    rest = [(c, r) for c, r in allp if r['status'] in ('ok', 'cut', 'limit', 'unsupported')]
    if len(must) > 400:
        must = must[:: len(must) // 400 + 1]
    if len(rest) > cap:
        step = len(rest) / float(cap)
        rest = [rest[int(i * step)] for i in range(cap)]
    for c, r in must + rest:
        i = len(reqs)
        reqs.append({'id': i, 'module': modname, 'case': c, 'values': r['values'], 'tier': a.tier})
        ref[i] = (c, r)
    ans = Replayers(modname, a.nproc).run(reqs) if reqs else {}

    known = load_known()
    violations, findings, mism, spurious, inconcl = [], {}, [], [], []
    validated = 0
    samples = []
    for i, (c, r) in ref.items():
        x = ans.get(i)
        if x is None:
            errors.append('no replay answer for a path of ' + c)
            continue
        if x['status'] in ('violation', 'escaped'):
            rr = dict(r, msg=x['msg'])
            k = known_match(known, pid, c, rr)
            if k is not None:
                findings[k['what']] = findings.get(k['what'], 0) + 1
            else:
                violations.append((c, r, x, reqs[i]))
        elif x['status'] == 'error':
            errors.append('case %s: replay error %s' % (c, x['msg']))
        elif r['status'] in ('violation', 'escaped'):
            (inconcl if r['tainted'] or x['status'] == 'infeasible' else spurious).append((c, r, x))
        elif r['status'] == 'error':
            errors.append('case %s: %s\n%s' % (c, r['msg'], r.get('tb', '')))
        elif r['status'] == 'ok':
            if x['status'] != 'ok':
                mism.append((c, r, x, 'replay ' + x['status']))
                continue
            con = [(k, v) for k, v in x['notes']]
            if len(con) != len(r['notes']) or not all(
                    k1 == k2 and same(v1, v2) for (k1, v1), (k2, v2) in zip(r['notes'], con)):
                mism.append((c, r, x, 'observation differs'))
            else:
                validated += 1
                if len(samples) < 6 and r['values']:
                    samples.append({'case': c, 'inputs': r['values'],
                                    'observed': x['notes'][:4]})
    tot = core.Stats()
    for c in cases:
        tot.merge(stats[c].dump())
    reached = sorted({l for c, r in allp for l in r['reached']})
    missing = [l for l in getattr(mod, 'EXPECT_REACHED', ()) if l not in reached] if not a.case \
        else []
    per_case = {}
    for c in cases:
        d = stats[c].dump()
        sts = {}
        for r in results[c]:
            sts[r['status']] = sts.get(r['status'], 0) + 1
        per_case[c] = {'paths': d['paths'], 'checks': d['checks'], 'queries': d['queries'],
                       'solver_s': round(d['solver_s'], 3), 'status': sts,
                       'concretised': d['concretised'], 'unknown': d['unknown'],
                       'prefixes_left_unexplored': unexplored[c]}
    tainted = sum(1 for c, r in allp if r['tainted'])
    left = sum(unexplored.values())
    funcs = sorted(f for f in tot.functions if f.startswith('oidcmsg'))
    complete = not left and not tot.unknown and not tainted and not tot.cut and not tot.limit and \
        not tot.unsupported and not mism and not spurious and not inconcl and not errors
    ev = {
        'property': pid, 'tier': a.tier, 'seed': seed, 'level': getattr(mod, 'LEVEL',
                                                                       'model_checking'),
        'wall_s': round(time.time() - t0, 2),
        'coverage': {
            'states': tot.paths, 'transitions': tot.branches,
            'traces_validated_against_impl': validated, 'samples': samples,
            'paths': tot.paths, 'branch_points': tot.branches, 'assertions_decided': tot.checks,
            'solver_queries': tot.queries, 'witnesses_by_model_repair': tot.repaired,
            'solver_s': round(tot.solver_s, 3),
            'solver': 'z3 %s (python API)' % __import__('z3').get_version_string(),
            'exhaustive_within_bounds': complete,
            'paths_partial_concretised': tainted, 'solver_unknown': tot.unknown,
            'paths_cut_at_bound': tot.cut + tot.limit, 'paths_unsupported': tot.unsupported,
            'prefixes_left_unexplored': left, 'replays': len(reqs), 'replay_mismatches': len(mism),
            'spurious_counterexamples': len(spurious) + len(inconcl),
            'functions_encoded': funcs, 'sources_sha256': {
                m: s for m, (p, s) in loader.SOURCES.items() if m.startswith('oidcmsg')},
            'bounds': getattr(mod, 'BOUNDS', ''), 'outside': getattr(mod, 'OUTSIDE', ''),
            'witnesses_reached': reached, 'witnesses_missing': missing,
            'notes': tot.notes, 'cases': per_case,
            'known_findings_hit': findings, 'violations': len(violations),
            'errors': errors[:5],
        },
    }
    if not a.case:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as fp:
            json.dump(ev, fp, indent=1, sort_keys=True)
    print('%s %s: %d paths, %d branch points, %d assertions, %d queries, %.1fs solver, %.1fs wall; '
          '%d/%d path models replayed identically on the real code' % (
              pid, a.tier, tot.paths, tot.branches, tot.checks, tot.queries, tot.solver_s,
              time.time() - t0, validated, len([1 for c, r in rest if r['status'] == 'ok'])))
    if not complete:
        print('  not exhaustive: tainted=%d unknown=%d cut=%d limit=%d unsupported=%d unexplored=%d '
              'mismatch=%d spurious=%d inconclusive=%d errors=%d' % (
                  tainted, tot.unknown, tot.cut, tot.limit, tot.unsupported, left, len(mism),
                  len(spurious), len(inconcl), len(errors)))
        for k, v in sorted(tot.notes.items()):
            print('   note %s: %d' % (k, v))
    if a.dump:
        for c, d in per_case.items():
            print('  case', c, json.dumps(d))
        for c, r, x, why in mism[:8]:
            print('  MISMATCH', c, why, json.dumps(r['values']), '\n    sym', r['notes'], '\n    con',
                  x['status'], x['msg'], x['notes'])
        for c, r, x in (spurious + inconcl)[:8]:
            print('  SPURIOUS', c, r['msg'], json.dumps(r['values']), r['tainted'], x['status'],
                  x['notes'], r.get('tb', ''))
        for e in errors[:5]:
            print('  ERROR', e)
        for c, r in allp:
            if r['status'] in ('unsupported', 'cut', 'limit', 'unconfirmed'):
                print('  ', r['status'], c, r['msg'], r['values'])
                break
    for w in missing:
        print('  witness not reached:', w)
    for w, n in findings.items():
        print('KNOWN-FINDING: property=%s %s' % (pid, w))
    if violations:
        shown = set()
        for n, (c, r, x, req) in enumerate(violations):
            if (c, x['msg']) in shown:
                continue
            shown.add((c, x['msg']))
            path = os.path.join(VERIF, 'evidence', 'replay_%s_%d.json' % (pid, len(shown)))
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, 'w') as fp:
                json.dump({'module': modname, 'case': c, 'values': r['values'], 'tier': a.tier,
                           'msg': x['msg'], 'observed': x['notes'], 'tb': x.get('tb')}, fp,
                          indent=1)
            print('  counterexample (%s): %s  inputs=%s' % (c, x['msg'], json.dumps(r['values'])))
            print('VIOLATION property=%s replay=%s' % (pid, path))
            if len(shown) >= 8:
                break
        return 1
    if errors:
        for e in errors[:3]:
            print('ERROR', e)
        # paths the engine could not follow are listed as unexplored; no verdict only if nothing
        # was decided and confirmed on the real code
        if not validated:
            return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
