"""Runs a list of small changes (files with mut(name, property, file, old, new)) in a scratch copy and says which
the property's check reports. python3 tools/mutate.py FILE... [--only NAME]"""
import os, shutil, subprocess, sys, time, json
SC = '/tmp/mutsc%d' % os.getpid()
OUT = '/tmp/mut'
os.makedirs(OUT, exist_ok=True)
only = None
files = []
args = sys.argv[1:]
while args:
    a = args.pop(0)
    if a == '--only':
        only = args.pop(0).split(',')
    else:
        files.append(a)


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


shutil.rmtree(SC, ignore_errors=True)
sh('cp -a /repo %s' % SC)


def mut(name, prop, file, *pairs, refactor=False):
    if only and name not in only:
        return
    sh('git -C %s checkout -- .' % SC)
    p = os.path.join(SC, 'src/oidcmsg', file)
    s = open(p).read()
    for old, new in pairs:
        if s.count(old) != 1:
            print(name, prop, 'DOES NOT MATCH ONCE', s.count(old), old[:60], flush=True)
            return
        s = s.replace(old, new)
    open(p, 'w').write(s)
    r = sh('cd %s && PYTHONPATH=%s/src PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 TZ=UTC /opt/venv/bin/python -m pytest '
           'tests -q -p no:cacheprovider --color=no --timeout=300 -x' % (SC, SC))
    sh('rm -rf %s/db' % SC)
    if r.returncode:
        print(name, prop, 'TESTS FAIL', [l for l in r.stdout.splitlines() if l.startswith('FAILED')][:1], flush=True)
        return
    for q in prop.split(','):
        t = time.time()
        r = sh('cd /verif && SYMX_REPO_SRC=%s/src timeout 880 python3-vt run.py %s' % (SC, q))
        open('%s/%s_%s.txt' % (OUT, name, q), 'w').write(r.stdout + r.stderr)
        ok = {True: {0: 'quiet', 1: 'FALSE ALARM'}, False: {0: 'MISSED', 1: 'caught'}}[refactor].get(r.returncode, 'rc=%d' % r.returncode)
        first = [l for l in r.stdout.splitlines() if 'counterexample' in l][:1] or [l for l in r.stdout.splitlines() if 'exhaustive' in l][:1]
        print(name, q, ok, '%.0fs' % (time.time() - t), first[0][:150] if first else '', flush=True)


for f in files:
    exec(open(f).read(), {'mut': mut})
shutil.rmtree(SC, ignore_errors=True)
