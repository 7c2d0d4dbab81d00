"""Concrete twin of SymX, used under the project's own interpreter on the unmodified code."""


class Infeasible(BaseException):
    pass


class CheckFailed(BaseException):
    def __init__(self, msg):
        BaseException.__init__(self, msg)
        self.msg = msg


class Out:
    def __init__(self, ok, value=None, exc=None):
        self.ok, self.value, self.exc = ok, value, exc

    @property
    def kind(self):
        return 'ok' if self.ok else type(self.exc).__name__

    def is_exc(self, *types):
        return (not self.ok) and isinstance(self.exc, types)


class ConX:
    symbolic = False

    def __init__(self, values):
        self.values = values
        self.notes = []
        self.reached = set()
        self.now = None
        self._fs = self._db = None

    def str(self, name, maxlen=None, minlen=0, alphabet=None, exclude=None):
        v = self.values.get(name, 'a' * minlen)
        return v

    def vec(self, name, maxlen, minlen=0, alphabet=None):
        return self.values.get(name, 'a' * minlen)

    def url(self, scheme, netloc, path='', query='', fragment=''):
        return (scheme + '://' if scheme else '') + netloc + path + (
            '?' + query if query else '') + ('#' + fragment if fragment else '')

    def jwt(self, alg, claims, key, tampered=False):
        from symx import conjwt
        return conjwt.jwt(alg, claims, key, tampered)

    def jwe(self, alg, enc, inner, key, tampered=False):
        from symx import conjwt
        return conjwt.jwe(alg, enc, inner, key, tampered)

    def keyjar(self, entries, later=None):
        from symx import conjwt
        return conjwt.keyjar(entries, later)

    def keys(self, labels):
        from symx import conjwt
        return [conjwt.keys()[l] for l in labels]

    def nontoken(self, name):
        return self.values.get(name, 'A')

    def int(self, name, lo=None, hi=None):
        return self.values.get(name, lo if lo is not None else 0)

    def bool(self, name):
        return bool(self.pick(name, [False, True]))

    def pick(self, name, options):
        if len(options) == 1:
            return options[0]
        return options[self.values.get(name, 0)]

    def assume(self, cond):
        if not cond:
            raise Infeasible()

    def check(self, cond, msg, **info):
        if not cond:
            raise CheckFailed(msg)

    def fail(self, msg):
        raise CheckFailed(msg)

    def run(self, f, *a, **k):
        try:
            return Out(True, value=f(*a, **k))
        except Exception as exc:
            return Out(False, exc=exc)

    def note(self, key, value):
        self.notes.append((key, snap(value)))

    def reach(self, label):
        self.reached.add(label)

    def taint(self, why):
        pass

    def fs(self):
        from symx import replay_fs
        self._fs = replay_fs.FS(self)
        return self._fs

    def db(self):
        import tempfile
        self._db = tempfile.mkdtemp(prefix='symx_db_')
        return 'sqlite:///' + self._db + '/x.db'

    def between(self, f, hook):
        from sqlalchemy import event
        from sqlalchemy.engine import Engine
        busy = [False]

        def at(*a, **k):
            if not busy[0]:
                busy[0] = True
                try:
                    hook()
                finally:
                    busy[0] = False
        event.listen(Engine, 'before_cursor_execute', at)
        event.listen(Engine, 'commit', at)
        try:
            return self.run(f)
        finally:
            event.remove(Engine, 'before_cursor_execute', at)
            event.remove(Engine, 'commit', at)

    def zone(self, tz):
        import os
        import time
        os.environ['TZ'] = tz                # the replay of one path is a process of its own
        time.tzset()

    def clock(self, us):
        from symx import replay_clock
        replay_clock.set_us(us)

    def bool_eq(self, a, b):
        return a == b


def snap(v):
    if isinstance(v, Out):
        return ['ok', snap(v.value)] if v.ok else ['exc', type(v.exc).__name__]
    if v is None or isinstance(v, (bool, int, str)):
        return v
    if isinstance(v, BaseException):
        return type(v).__name__
    if isinstance(v, (list, tuple)):
        return [snap(i) for i in v]
    if isinstance(v, (set, frozenset)):
        return {'__set__': sorted((snap(i) for i in v), key=repr)}
    d = v if isinstance(v, dict) else getattr(v, '_dict', None)
    if isinstance(d, dict):
        return {'__dict__': [[snap(k), snap(x)] for k, x in d.items()]}
    return '<%s>' % type(v).__name__
