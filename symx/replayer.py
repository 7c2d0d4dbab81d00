"""Runs harness functions concretely on the project's unmodified code (its own interpreter).

Reads JSON lines {id, module, case, values, tier}; writes {id, status, msg, notes}."""
import importlib
import json
import os
import shutil
import signal
import sys
import traceback
import warnings

sys.dont_write_bytecode = True
warnings.simplefilter('ignore')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_SRC = os.environ.get('SYMX_REPO_SRC', '/repo/src')
sys.path.insert(0, REPO_SRC)
sys.path.insert(0, VERIF)
import logging  # noqa
logging.disable(logging.CRITICAL)


def one(req):
    from symx import conx
    mod = importlib.import_module(req['module'])
    X = conx.ConX(req['values'])
    X.tier = req.get('tier', 'quick')
    r = {'id': req['id'], 'status': 'ok', 'msg': None}
    try:
        mod.CASES[req['case']](X)
    except conx.CheckFailed as e:
        r['status'], r['msg'] = 'violation', e.msg
    except conx.Infeasible:
        r['status'] = 'infeasible'
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        inside = any('/oidcmsg/' in f.filename for f in tb)
        r['status'] = 'escaped' if inside else 'error'
        r['msg'] = 'unexpected %s: %s' % (type(e).__name__, str(e)[:300])
        r['tb'] = traceback.format_exc()[-2500:]
    finally:
        if X._fs is not None:
            X._fs.close()
        if X._db is not None:
            shutil.rmtree(X._db, ignore_errors=True)
    r['notes'] = X.notes
    return r


def main():
    mods = sys.argv[1:]
    real = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    for m in mods:
        importlib.import_module(m)
    from symx import replay_clock
    replay_clock.install()
    for line in sys.stdin:
        req = json.loads(line)
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(rd)
            signal.alarm(60)
            try:
                data = json.dumps(one(req))
            except BaseException:
                data = json.dumps({'id': req['id'], 'status': 'error',
                                   'msg': traceback.format_exc()[-2000:], 'notes': []})
            with os.fdopen(wr, 'w') as fp:
                fp.write(data)
            os._exit(0)
        os.close(wr)
        with os.fdopen(rd) as fp:
            data = fp.read()
        os.waitpid(pid, 0)
        real.write((data or json.dumps({'id': req['id'], 'status': 'error', 'msg': 'died',
                                        'notes': []})) + '\n')
        real.flush()


if __name__ == '__main__':
    main()
