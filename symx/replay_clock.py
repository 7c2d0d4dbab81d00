"""A settable clock for concrete replays: installed before the project is imported."""
import datetime
import time

_real_time, _real_gmtime, _real_dt = time.time, time.gmtime, datetime.datetime
NOW = [None]
EPOCH = _real_dt(1970, 1, 1)


def set_us(us):
    NOW[0] = us


class _Meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, _real_dt)


class FakeDT(_real_dt, metaclass=_Meta):
    @classmethod
    def utcnow(cls):
        if NOW[0] is None:
            return _real_dt.now(datetime.timezone.utc).replace(tzinfo=None)
        return EPOCH + datetime.timedelta(microseconds=NOW[0])

    @classmethod
    def now(cls, tz=None):
        if NOW[0] is None:
            return _real_dt.now(tz)
        return _real_dt.fromtimestamp(NOW[0] // 1000000, tz).replace(microsecond=NOW[0] % 1000000)

    @classmethod
    def fromtimestamp(cls, *a, **k):
        return _real_dt.fromtimestamp(*a, **k)      # a subclass loses which of two equal readings it is


def _time():
    return _real_time() if NOW[0] is None else NOW[0] / 1000000


def _gmtime(*a):
    if NOW[0] is None or (a and a[0] is not None):
        return _real_gmtime(*a)
    return _real_gmtime(NOW[0] // 1000000)


def install():
    """only the package under test sees the fake clock"""
    import oidcmsg.time_util as tu
    import oidcmsg.oidc
    import oidcmsg.oidc.session
    import oidcmsg.oidc.identity_assurance
    import sys
    for name, mod in list(sys.modules.items()):
        if (name.split('.')[0] != 'oidcmsg' and name != 'cryptojwt.jwt') or mod is None:
            continue
        for k, v in list(vars(mod).items()):
            if v is _real_dt:
                setattr(mod, k, FakeDT)
            elif v is time:
                setattr(mod, k, FakeTimeModule)
            elif v is datetime:
                setattr(mod, k, FakeDatetimeModule)
            elif v is _real_time:
                setattr(mod, k, _time)
            elif v is _real_gmtime:
                setattr(mod, k, _gmtime)


class _Proxy:
    def __init__(self, mod, over):
        self.__dict__['_m'] = mod
        self.__dict__.update(over)

    def __getattr__(self, n):
        return getattr(self._m, n)


FakeTimeModule = _Proxy(time, {'time': _time, 'gmtime': _gmtime})
FakeDatetimeModule = _Proxy(datetime, {'datetime': FakeDT})
