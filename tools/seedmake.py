import sys, os, subprocess, json, shutil, importlib.util
SC='/tmp/seedsc'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def fresh():
    shutil.rmtree(SC, ignore_errors=True)
    sh('cp -a /repo %s' % SC)
BASE=None
def tests():
    # same command as test.sh but on the scratch copy
    sh('rm -rf %s/db; mkdir -p /tmp/seedhome' % SC)
    r = sh('cd %s && PYTHONPATH=%s/src PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 TZ=UTC /opt/venv/bin/python -m pytest tests -q -p no:cacheprovider --color=no --timeout=300 -x' % (SC, SC))
    sh('rm -rf %s/db' % SC)
    return r.stdout.strip().splitlines()[-1], r.returncode
def make(name, prop, edits, demo, needs, breaks):
    sh('git -C %s checkout -- .' % SC)
    for f, old, new in edits:
        p=os.path.join(SC, f); s=open(p).read()
        if s.count(old)!=1: print(name,'EDIT does not match once', f, s.count(old)); return
        open(p,'w').write(s.replace(old,new))
    d='/verif/seeded/'+name
    os.makedirs(d, exist_ok=True)
    open(d+'/patch.diff','w').write(sh('git -C %s diff' % SC).stdout)
    open(d+'/demo.py','w').write(demo)
    open(d+'/demo.sh','w').write('#!/bin/bash\n# run with cwd = the repository\nexport PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 TZ=UTC\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    os.chmod(d+'/demo.sh',0o755)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks}, open(d+'/meta.json','w'), indent=1)
    a=sh('cd /repo && bash %s/demo.sh' % d)
    b=sh('cd %s && bash %s/demo.sh' % (SC,d))
    t=tests()
    ok = a.returncode==0 and b.returncode!=0 and t[1]==0
    print('OK ' if ok else 'BAD', name, prop, 'clean rc',a.returncode,'patched rc',b.returncode, t[0])
    if not ok: print(a.stderr[-800:], b.stderr[-300:])
fresh()
for f in sys.argv[1:]:
    ns={'make':make}
    exec(open(f).read(), ns)
sh('git -C %s checkout -- .' % SC)
