#!/usr/bin/env python3
"""Applies the planted bugs one by one to a scratch copy of /repo and runs the check of the property
(and, with --all NAME, every check) against the copy; writes tools/seed_results.json."""
import sys, os, json, subprocess, shutil
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
RES='/verif/tools/seed_results.json'
res=json.load(open(RES)) if os.path.exists(RES) else {}
names = sys.argv[1:] or sorted(os.listdir('/verif/seeded'))
for n in names:
    d='/verif/seeded/'+n
    pid=json.load(open(d+'/meta.json'))['property']
    t='/tmp/seedck'; shutil.rmtree(t, ignore_errors=True); sh('cp -a /repo '+t)
    r=sh('git -C %s apply %s/patch.diff'%(t,d))
    if r.returncode: print(n,'patch does not apply'); continue
    env=dict(os.environ, SYMX_REPO_SRC=t+'/src', VERIF_SEED='1', VERIF_TIER='quick')
    r=subprocess.run(['python3-vt','run.py',pid,'--tier','quick'],cwd='/verif',env=env,capture_output=True,text=True)
    v=[l for l in r.stdout.splitlines() if l.startswith('VIOLATION property=%s'%pid)]
    c=[l for l in r.stdout.splitlines() if 'counterexample' in l][:1]
    res[n]={'property':pid,'caught':bool(r.returncode==1 and v),'how':(c[0].split('inputs=')[0].strip()[:160] if c else '')}
    print('CAUGHT' if r.returncode==1 and v else 'MISSED rc=%d'%r.returncode, n, pid, r.stdout.splitlines()[0][:90] if r.stdout else r.stderr[-300:], (c[0][:200] if c else ''))
    sys.stdout.flush()
    json.dump({k:res[k] for k in sorted(res) if os.path.isdir('/verif/seeded/'+k)},open(RES,'w'),indent=1)
shutil.rmtree('/tmp/seedck', ignore_errors=True)
json.dump({k:res[k] for k in sorted(res) if os.path.isdir('/verif/seeded/'+k)},open(RES,'w'),indent=1)
