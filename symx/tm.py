"""Time: datetimes as integer microseconds, struct_time as integer seconds, floats as rationals."""
import calendar
import datetime as _dt
import re as _re
import time as _time
import z3

from symx import core, rt, vec
from symx.core import Cut, SymInt, SymStr, Unsupported, zi, zs
from symx.rt import MODELS, NATURAL, TYPE_MODELS, model, tmodel

REAL_DATETIME = _dt.datetime
EPOCH = _dt.datetime(1970, 1, 1)
US = 1000000


def _rat(x):
    """z3 Real term of a number"""
    if isinstance(x, SymFrac):
        return x.z
    if isinstance(x, SymInt):
        return z3.ToReal(x.z)
    if isinstance(x, (int, bool)):
        return z3.RealVal(int(x))
    if isinstance(x, float):
        from fractions import Fraction
        f = Fraction(x)
        return z3.RealVal('%d/%d' % (f.numerator, f.denominator))
    raise TypeError('number expected, not %s' % type(x).__name__)


class SymFrac:
    """A float, treated as an exact rational (rounding is outside the encoding)."""
    __sx_symbolic__ = True

    def __init__(self, z):
        self.z = z3.simplify(z)

    @staticmethod
    def of(x):
        return SymFrac(_rat(x))

    @property
    def __class__(self):
        return float

    def __hash__(self):
        return id(self)

    def _num(self, o):
        return isinstance(o, (int, float))

    def __eq__(self, o):
        if not self._num(o):
            return False
        return core.ENGINE.branch(self.z == _rat(o))

    def __ne__(self, o):
        return not self.__eq__(o)

    def _c(self, o, f):
        if not self._num(o):
            return NotImplemented
        if type(o) is float and o in (float('inf'), float('-inf')):
            return f(0, 1 if o > 0 else -1)
        return core.ENGINE.branch(f(self.z, _rat(o)))

    def __lt__(self, o):
        return self._c(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._c(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._c(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._c(o, lambda a, b: a >= b)

    def _a(self, o, f):
        return SymFrac(f(self.z, _rat(o))) if self._num(o) else NotImplemented

    def __add__(self, o):
        return self._a(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._a(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._a(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._a(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if not self._num(o):
            return NotImplemented
        if core.ENGINE.branch(_rat(o) == 0):
            raise ZeroDivisionError('division by zero')
        return SymFrac(self.z / _rat(o))

    def __rtruediv__(self, o):
        return SymFrac.of(o) / self

    def __floordiv__(self, o):
        q = self / o
        return SymFrac(z3.ToReal(z3.ToInt(q.z)))

    def __mod__(self, o):
        q = z3.ToReal(z3.ToInt((self / o).z))
        return SymFrac(self.z - q * _rat(o))

    def __neg__(self):
        return SymFrac(-self.z)

    def __abs__(self):
        return SymFrac(z3.If(self.z >= 0, self.z, -self.z))

    def __bool__(self):
        return core.ENGINE.branch(self.z != 0)

    def __sx_int__(self):
        f = z3.ToInt(self.z)        # floor
        return SymInt(z3.simplify(z3.If(z3.Or(self.z >= 0, z3.ToReal(f) == self.z), f, f + 1)))

    def __sx_float__(self):
        return self

    def __trunc__(self):
        return self.__sx_int__()

    def __floor__(self):
        return SymInt(z3.ToInt(self.z))

    def __ceil__(self):
        return SymInt(-z3.ToInt(-self.z))

    def __round__(self, n=None):
        f = z3.ToInt(self.z)
        d = self.z - z3.ToReal(f)
        h = z3.RealVal('1/2')
        return SymInt(z3.If(d < h, f, z3.If(d > h, f + 1, z3.If(f % 2 == 0, f, f + 1))))

    def is_integer(self):
        return core.ENGINE.branch(z3.IsInt(self.z))

    def __deepcopy__(self, m):
        return self

    def __sx_str__(self):
        return rt.opaque('float')

    def __sx_json__(self):
        return self


core._CUSTOM_NUM.add(SymFrac)


class SymDelta:
    __sx_symbolic__ = True

    def __init__(self, us):
        self.us = z3.simplify(us) if not isinstance(us, int) else z3.IntVal(us)

    @property
    def __class__(self):
        return _dt.timedelta

    def __hash__(self):
        return id(self)

    def total_seconds(self):
        return SymFrac(z3.ToReal(self.us) / US)

    @property
    def days(self):
        return SymInt(z3.simplify(self.us / (86400 * US)))

    @property
    def seconds(self):
        return SymInt(z3.simplify((self.us % (86400 * US)) / US))

    @property
    def microseconds(self):
        return SymInt(z3.simplify(self.us % US))

    def __add__(self, o):
        if isinstance(o, _dt.timedelta):
            return SymDelta(self.us + dus(o))
        if type(o) is SymDT:
            return SymDT(o.us + self.us, o.off)
        if isinstance(o, REAL_DATETIME):
            return SymDT(tus(o) + self.us)
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, _dt.timedelta):
            return SymDelta(self.us - dus(o))
        return NotImplemented

    def __rsub__(self, o):
        if isinstance(o, _dt.timedelta):
            return SymDelta(dus(o) - self.us)
        if type(o) is SymDT:
            return SymDT(o.us - self.us, o.off)
        if isinstance(o, REAL_DATETIME):
            return SymDT(tus(o) - self.us)
        return NotImplemented

    def __neg__(self):
        return SymDelta(-self.us)

    def __abs__(self):
        return SymDelta(z3.If(self.us >= 0, self.us, -self.us))

    def __mul__(self, o):
        if isinstance(o, int):
            return SymDelta(self.us * zi(o))
        return NotImplemented

    __rmul__ = __mul__

    def __floordiv__(self, o):
        if isinstance(o, _dt.timedelta):
            return SymInt(self.us) // SymInt(dus(o))
        return SymDelta((SymInt(self.us) // o).z)

    def __truediv__(self, o):
        if isinstance(o, _dt.timedelta):
            return SymFrac(z3.ToReal(self.us) / z3.ToReal(dus(o)))
        return NotImplemented

    def _c(self, o, f):
        if not isinstance(o, _dt.timedelta):
            return NotImplemented
        return core.ENGINE.branch(f(self.us, dus(o)))

    def __eq__(self, o):
        r = self._c(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        return not self.__eq__(o)

    def __lt__(self, o):
        return self._c(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._c(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._c(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._c(o, lambda a, b: a >= b)

    def __bool__(self):
        return core.ENGINE.branch(self.us != 0)

    def __deepcopy__(self, m):
        return self


def dus(d):
    if type(d) is SymDelta:
        return d.us
    return z3.IntVal((d.days * 86400 + d.seconds) * US + d.microseconds)


def tus(d, other=None):
    if type(d) is SymDT:
        if (d.off is None) != (other is None):
            raise TypeError("can't compare offset-naive and offset-aware datetimes")
        return d.us if d.off is None else d.us - d.off * US
    if d.tzinfo is not None:
        if other is None:
            raise TypeError("can't compare offset-naive and offset-aware datetimes")
        return dus(d - EPOCH.replace(tzinfo=_dt.timezone.utc))
    if other is not None:
        raise TypeError("can't compare offset-naive and offset-aware datetimes")
    return dus(d - EPOCH)


# ------------------------------------------------------------------ time zones

ZONES = {}


def zone_table(tz):
    """[(first second, offset)] of a zone given in POSIX notation, from 2018 to 2026, from the C library"""
    t = ZONES.get(tz)
    if t is None:
        import subprocess
        import sys
        prog = ('import time\no=None\n'
                'for t in range(1514764800, 1798761600, 1800):\n'
                '  x=time.localtime(t).tm_gmtoff\n'
                '  if x!=o: print(t, x)\n'
                '  o=x\n')
        r = subprocess.run([sys.executable, '-c', prog], env={'TZ': tz}, capture_output=True, text=True, check=True)
        t = ZONES[tz] = [tuple(int(i) for i in l.split()) for l in r.stdout.split('\n') if l]
    return t


def zoff(sec):
    """the offset of local time at an instant (forks on the changes)"""
    z = core.ENGINE.zone
    if z is None:
        if _time.timezone != 0 or _time.daylight != 0:
            raise Unsupported('local time')
        return 0
    if len(z) == 1:
        return z[0][1]
    sec = sec if z3.is_expr(sec) else zi(sec)
    if not core.ENGINE.branch(z3.And(sec >= z[0][0], sec < 1798761600)):
        raise Unsupported('local time outside 2018-2026')
    lo, hi = 0, len(z) - 1
    while lo < hi:
        mid = (lo + hi + 1) // 2
        if core.ENGINE.branch(sec >= z[mid][0]):
            lo = mid
        else:
            hi = mid - 1
    return z[lo][1]


def local(us):
    """wall clock of an instant, both in microseconds"""
    o = zoff(us / US)
    return z3.simplify(us + o * US), o


def mktime(w):
    """the instant of a wall clock reading (as datetime does it: the first of two)"""
    if core.ENGINE.zone is None or len(core.ENGINE.zone) == 1:
        return w - zoff(w / US) * US
    a = zoff(w / US)
    u1 = w - a * US
    t1 = u1 + zoff(u1 / US) * US
    if core.ENGINE.branch(t1 == w):
        b = zoff((u1 - 24 * 3600 * US) / US)
        if a == b:
            return u1
    else:
        b = zoff(u1 / US)
    u2 = w - b * US
    if core.ENGINE.branch(u2 + zoff(u2 / US) * US == w):
        return u2
    if core.ENGINE.branch(t1 == w):
        return u1
    return u1 if core.ENGINE.branch(u1 >= u2) else u2


def tzoff(tz):
    """offset of a fixed zone, in seconds"""
    if not isinstance(tz, _dt.timezone):
        if type(tz) is SymTZ:
            return tz.off
        raise Unsupported('time zone object')
    d = tz.utcoffset(None)
    return d.days * 86400 + d.seconds


class SymTZ(_dt.tzinfo):
    def __init__(self, off):
        self.off = off


class SymDT:
    """A datetime: microseconds since 1970-01-01 00:00, and its offset from UTC in seconds if it has one"""
    __sx_symbolic__ = True

    def __init__(self, us, off=None, inst=None):
        self.us = z3.simplify(us)
        self.off = off
        self.inst = inst          # of a local time made from an instant: which one (the fold attribute)

    @property
    def tzinfo(self):
        if self.off is None:
            return None
        return _dt.timezone(_dt.timedelta(seconds=self.off)) if isinstance(self.off, int) else SymTZ(self.off)

    def utc(self):
        """the instant"""
        if self.off is not None:
            return self.us - self.off * US
        return self.inst if self.inst is not None else mktime(self.us)

    def utcoffset(self):
        if self.off is None:
            return None
        return _dt.timedelta(seconds=self.off) if isinstance(self.off, int) else SymDelta(self.off * US)

    def astimezone(self, tz=None):
        u = self.utc()
        if tz is None:
            w, o = local(u)
            return SymDT(w, o)
        o = tzoff(tz)
        return SymDT(u + o * US, o)

    def isoformat(self, *a, **k):
        raise Unsupported('isoformat')

    def date(self):
        raise Unsupported('date')

    @property
    def __class__(self):
        return REAL_DATETIME

    def __hash__(self):
        return id(self)

    def __add__(self, o):
        if isinstance(o, _dt.timedelta):
            return SymDT(self.us + dus(o), self.off)
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, _dt.timedelta):
            return SymDT(self.us - dus(o), self.off)
        if isinstance(o, REAL_DATETIME):
            return SymDelta(self._u(o) - tus(o, self.off))
        return NotImplemented

    def __rsub__(self, o):
        if isinstance(o, REAL_DATETIME):
            return SymDelta(tus(o, self.off) - self._u(o))
        return NotImplemented

    def _c(self, o, f):
        if not isinstance(o, REAL_DATETIME):
            return NotImplemented
        return core.ENGINE.branch(f(self._u(o), tus(o, self.off)))

    def _u(self, o):
        return self.us if self.off is None else self.us - self.off * US

    def __eq__(self, o):
        r = self._c(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        return not self.__eq__(o)

    def __lt__(self, o):
        return self._c(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._c(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._c(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._c(o, lambda a, b: a >= b)

    def replace(self, **kw):
        kw = dict(kw)
        r = self
        if 'tzinfo' in kw:
            tz = kw.pop('tzinfo')
            r = SymDT(self.us, None if tz is None else tzoff(tz))
        elif self.inst is not None and kw == {'microsecond': 0}:
            return SymDT(r.us - r.us % US, None, r.inst - r.us % US)
        if kw == {'microsecond': 0}:
            return SymDT(r.us - r.us % US, r.off)
        if not kw:
            return r
        raise Unsupported('datetime.replace')

    def timetuple(self):
        if self.off is not None:
            raise Unsupported('timetuple of an aware datetime')
        return SymTime(self.us / US)

    def utctimetuple(self):
        return SymTime(self._u(None) / US)

    def strftime(self, fmt):
        return timedoc(self.us / US, fmt, self.off)

    def timestamp(self):
        return SymFrac(z3.ToReal(self.utc()) / US)

    def __deepcopy__(self, m):
        return self

    @property
    def year(self):
        return civil(self.us / US)[0]

    @property
    def month(self):
        return civil(self.us / US)[1]

    @property
    def day(self):
        return civil(self.us / US)[2]


def timedoc(sec, fmt, off=None):
    d = rt.mkdoc('time', (sec, fmt, off))
    r = [SHAPES.get(x) if k == 'f' else z3.Re(z3.StringVal(x)) for k, x in _directives(fmt)]
    if off is None and '%z' in fmt:
        r = [x for x, (k, c) in zip(r, _directives(fmt)) if (k, c) != ('f', 'z')]
    if all(x is not None for x in r) and len(r) > 1:
        d.meta = ('doc', (fmt, off is None), z3.Concat(*r), sum(
            {'Y': 4, 'z': 0 if off is None else 5}.get(c, 2) if k == 'f' else len(c) for k, c in _directives(fmt)))
    return d


_SHAPED = {}


def shaped(s, r):
    """does a written time match (True, False; None: it depends on the time)?  From the shape of it alone."""
    if not (isinstance(s, rt.Doc) and s.kind == 'time'):
        return None
    if len(s.meta) < 3:
        return None
    k = (s.meta[1], r.sexpr())
    if k not in _SHAPED:
        x = z3.String('shape')
        v = None
        for val, z in ((False, r), (True, z3.Complement(r))):
            q = z3.Solver()
            q.set('timeout', 10000)
            q.add(z3.InRe(x, s.meta[2]), z3.InRe(x, z))
            if q.check() == z3.unsat:
                v = val
                break
        _SHAPED[k] = v
    return _SHAPED[k]


_D = z3.Range('0', '9')
_two = z3.Concat(_D, _D)
SHAPES = {'Y': z3.Concat(_D, _D, _D, _D), 'm': _two, 'd': _two, 'H': _two, 'M': _two, 'S': _two,
          'z': z3.Concat(z3.Union(z3.Re('+'), z3.Re('-')), _two, _two)}


def days_from_civil(y, m, d):
    """days since 1970-01-01 of the proleptic Gregorian date (z3 Ints)"""
    y2 = z3.If(m <= 2, y - 1, y)
    era = y2 / 400
    yoe = y2 - era * 400
    mp = z3.If(m > 2, m - 3, m + 9)
    doy = (153 * mp + 2) / 5 + d - 1
    doe = yoe * 365 + yoe / 4 - yoe / 100 + doy
    return era * 146097 + doe - 719468


def month_len(y, m):
    leap = z3.And(y % 4 == 0, z3.Or(y % 100 != 0, y % 400 == 0))
    return z3.If(m == 2, z3.If(leap, 29, 28),
                 z3.If(z3.Or(m == 4, m == 6, m == 9, m == 11), z3.IntVal(30), z3.IntVal(31)))


def civil(sec):
    e = core.ENGINE
    y, m, d = (z3.Int(e.fresh('civ_' + k)) for k in 'ymd')
    e.assume(z3.And(y >= 1, y <= 9999, m >= 1, m <= 12, d >= 1, d <= month_len(y, m),
                    days_from_civil(y, m, d) == sec / 86400))
    return SymInt(y), SymInt(m), SymInt(d)


class SymTime:
    """struct_time in UTC: ordering and equality are those of the instant"""
    __sx_symbolic__ = True

    def __init__(self, sec, dst=0, leap=False):
        self.sec = z3.simplify(sec)
        self.dst, self.leap = dst, leap
        self._civ = None

    @property
    def __class__(self):
        return _time.struct_time

    def __hash__(self):
        return id(self)

    def _c(self, o, f):
        if type(o) is SymTime:
            os, od, ol = o.sec, o.dst, o.leap
        elif isinstance(o, _time.struct_time):
            os, od, ol = z3.IntVal(calendar.timegm(o)), o.tm_isdst, o.tm_sec > 59
        else:
            return NotImplemented
        if self.leap or ol:
            raise Unsupported('comparison with a leap second')
        # field by field, the daylight saving flag last
        return core.ENGINE.branch(f(self.sec * 4 + self.dst, os * 4 + od))

    def __eq__(self, o):
        r = self._c(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        return not self.__eq__(o)

    def __lt__(self, o):
        return self._c(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._c(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._c(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._c(o, lambda a, b: a >= b)

    def _field(self, i):
        if i in (0, 1, 2):
            if self._civ is None:
                self._civ = civil(self.sec)
            return self._civ[i]
        s = self.sec % 86400
        if i == 3:
            return SymInt(z3.simplify(s / 3600))
        if i == 4:
            return SymInt(z3.simplify((s % 3600) / 60))
        if i == 5:
            if self.leap:
                raise Unsupported('leap second')
            return SymInt(z3.simplify(s % 60))
        if i == 8:
            return self.dst
        raise Unsupported('struct_time field')

    tm_year = property(lambda s: s._field(0))
    tm_mon = property(lambda s: s._field(1))
    tm_mday = property(lambda s: s._field(2))
    tm_hour = property(lambda s: s._field(3))
    tm_min = property(lambda s: s._field(4))
    tm_sec = property(lambda s: s._field(5))

    def __getitem__(self, i):
        if isinstance(i, slice):
            return tuple(self._field(j) for j in range(*i.indices(9)))
        return self._field(i)

    def __deepcopy__(self, m):
        return self


# ------------------------------------------------------------------ clock

DEFAULT_NOW = 1700000000 * US


def now_us():
    """the current instant: what the harness set, or real time"""
    e = core.ENGINE
    if e is None or not e.active:
        return None
    return getattr(e, 'clock', None)


@model(REAL_DATETIME.utcnow)
def _():
    n = now_us()
    return NotImplemented if n is None else SymDT(n)


def _now(tz=None):
    n = now_us()
    if n is None:
        return NotImplemented
    if tz is not None:
        o = tzoff(tz)
        return SymDT(n + o * US, o)
    return SymDT(local(n)[0], None, n)


@tmodel('cls', 'unused')
def _(*a):
    return NotImplemented


def cls_model(t, name):
    def deco(g):
        TYPE_MODELS[('cls', t, name)] = g
        return g
    return deco


@cls_model(REAL_DATETIME, 'utcnow')
def _(cls):
    n = now_us()
    return NotImplemented if n is None else SymDT(n)


@cls_model(REAL_DATETIME, 'now')
def _(cls, tz=None):
    return _now(tz)


@cls_model(REAL_DATETIME, 'utcfromtimestamp')
def _(cls, x):
    if not getattr(x, '__sx_symbolic__', False) and not isinstance(x, SymInt):
        return NotImplemented
    return SymDT(z3.ToInt(_rat(x) * US))


@cls_model(REAL_DATETIME, 'fromtimestamp')
def _(cls, x, tz=None):
    if not getattr(x, '__sx_symbolic__', False) and not isinstance(x, SymInt) and core.ENGINE.zone is None:
        return NotImplemented
    u = SymFrac(_rat(x) * US).__round__().z if type(x) is SymFrac or type(x) is float else zi(x) * US
    if tz is None:
        return SymDT(local(u)[0], None, u)
    o = tzoff(tz)
    return SymDT(u + o * US, o)


@cls_model(REAL_DATETIME, 'strptime')
def _(cls, s, fmt):
    if not isinstance(s, SymStr):
        if core.ENGINE is not None and core.ENGINE.zone is not None and type(s) is str and type(fmt) is str:
            d = REAL_DATETIME.strptime(s, fmt)        # an ordinary text, in a zone that is not the one of this process
            o = d.utcoffset()
            return SymDT(dus(d.replace(tzinfo=None) - EPOCH), None if o is None else o.days * 86400 + o.seconds)
        return NotImplemented
    t = _strptime(s, fmt, True)
    if isinstance(t, SymDT):
        return t
    if t is NotImplemented:
        return NotImplemented
    return SymDT(t.sec * US)


@model(_time.time)
def _():
    n = now_us()
    return NotImplemented if n is None else SymFrac(z3.ToReal(n) / US)


@model(_time.gmtime)
def _(*a):
    if not a or a[0] is None:
        n = now_us()
        return NotImplemented if n is None else SymTime(n / US)
    x = a[0]
    if isinstance(x, SymInt):
        return SymTime(x.z)
    if type(x) is SymFrac:
        return SymTime(z3.ToInt(x.z))
    return NotImplemented


@model(_time.strftime)
def _(fmt, *t):
    if t and type(t[0]) is SymTime:
        return timedoc(t[0].sec, fmt)
    return NotImplemented


@model(calendar.timegm)
def _(t):
    if type(t) is SymTime:
        return SymInt(t.sec)
    if isinstance(t, tuple) and rt.deep_sym(t):
        return SymInt(z3.simplify(days_from_civil(zi(t[0]), zi(t[1]), z3.IntVal(1)) * 86400 + (
            zi(t[2]) - 1) * 86400 + zi(t[3]) * 3600 + zi(t[4]) * 60 + zi(t[5])))
    return NotImplemented


@model(calendar.monthrange)
def _(y, m):
    if isinstance(y, SymInt) or isinstance(m, SymInt):
        return (rt.opaque('weekday'), SymInt(month_len(zi(y), zi(m))))
    return NotImplemented


@model(_dt.timedelta)
def _(days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
    args = (days, seconds, microseconds, milliseconds, minutes, hours, weeks)
    if not any(rt.deep_sym(a) for a in args):
        return NotImplemented
    w = (86400 * US, US, 1, 1000, 60 * US, 3600 * US, 7 * 86400 * US)
    tot = z3.IntVal(0)
    for a, k in zip(args, w):
        if isinstance(a, (SymInt, int)) and not type(a) is SymFrac:
            tot = tot + zi(a) * k
        elif type(a) is float and (a * k).is_integer():
            tot = tot + int(a * k)
        elif type(a) is SymFrac:
            # rounded half-even to microseconds
            tot = tot + SymFrac(a.z * k).__round__().z
        else:
            raise TypeError('unsupported type for timedelta component: %s' % type(a).__name__)
    e = core.ENGINE
    lim = 999999999 * 86400 * US
    if not e.branch(z3.And(tot <= lim, tot >= -lim)):
        raise OverflowError('days=...; must have magnitude <= 999999999')
    return SymDelta(tot)


@model(REAL_DATETIME)
def _(*a, **k):
    if not any(rt.deep_sym(x) for x in a) and not any(rt.deep_sym(x) for x in k.values()):
        return NotImplemented
    names = ['year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond']
    v = dict(zip(names, a))
    v.update(k)
    y, m, d = zi(v['year']), zi(v['month']), zi(v['day'])
    if not core.ENGINE.branch(z3.And(y >= 1, y <= 9999, m >= 1, m <= 12, d >= 1,
                                     d <= month_len(y, m))):
        raise ValueError('day is out of range for month')
    g = lambda n: zi(v.get(n, 0))
    return SymDT((days_from_civil(y, m, d) * 86400 + g('hour') * 3600 + g('minute') * 60 +
                  g('second')) * US + g('microsecond'))


@model(_time.strptime)
def _(s, fmt='%a %b %d %H:%M:%S %Y'):
    if not isinstance(s, SymStr):
        return NotImplemented
    return _strptime(s, fmt)


FULL = set('YmdHMS')


def _directives(fmt):
    """[('f', directive) | ('l', character)] of a format"""
    out, i = [], 0
    while i < len(fmt):
        if fmt[i] == '%':
            out.append(('f', fmt[i + 1]))
            i += 2
        else:
            out.append(('l', fmt[i]))
            i += 1
    return out


def _time_of_doc(sec, f, fmt):
    if f != fmt:
        for t in (0, 1234567890, 4102444799):
            try:
                _time.strptime(_time.strftime(f, _time.gmtime(t)), fmt)
            except ValueError:
                continue
            raise Unsupported('strptime of a time in another format')
        raise ValueError('time data does not match format')
    have = {d for k, d in _directives(fmt) if k == 'f'}
    if have >= FULL:
        return SymTime(sec, -1)
    if have == {'Y', 'm', 'd'}:
        return SymTime(sec - sec % 86400, -1)
    raise Unsupported('strptime with format %s' % fmt)


def _strptime(s, fmt, dt=False):
    if isinstance(fmt, SymStr):
        raise Unsupported('symbolic format')
    if isinstance(s, rt.Doc) and s.kind == 'time':
        off = s.payload[2] if len(s.payload) > 2 else None
        if '%z' in fmt and off is None and s.payload[1] == fmt:
            raise ValueError('time data does not match format')
        t = _time_of_doc(s.payload[0], s.payload[1], fmt)
        if '%z' in fmt:
            if not dt:
                raise Unsupported('time.strptime with an offset')
            return SymDT(t.sec * US, off)
        return t
    if isinstance(s, rt.Doc) and s.kind != 'url':
        raise Unsupported('strptime of a %s document' % s.kind)
    return _strptime_text(s, fmt, dt)


def _strptime_text(s, fmt, dt=False):
    """what the library does: match its own pattern of the format, then compute with the numbers read"""
    import _strptime as _sp
    fields = [d for k, d in _directives(fmt) if k == 'f']
    if set(fields) - FULL - ({'z'} if dt else set()):
        raise Unsupported('strptime with format %s' % fmt)
    pat = _sp.TimeRE().compile(fmt)
    if not isinstance(s, vec.SymVec):
        if not vec.fits(pat, s):
            raise ValueError('time data does not match format')
        raise Unsupported('strptime of a text of unknown length')
    found = vec.rematch(pat, s)
    if found is None:
        raise ValueError('time data does not match format')
    if found.end() != len(s.units):
        raise ValueError('unconverted data remains')
    v = {d: vec.to_int(found.group(d)) for d in fields if d != 'z'}
    v = {d: zi(x) for d, x in v.items()}
    y, m, d = v.get('Y'), v.get('m', z3.IntVal(1)), v.get('d', z3.IntVal(1))
    if y is None:
        ok = d <= month_len(z3.IntVal(1904), m)
        y = z3.IntVal(1900)
    else:
        ok = z3.And(y >= 1, d <= month_len(y, m))
    e = core.ENGINE
    if not e.branch(ok):
        raise ValueError('day is out of range for month')
    z = z3.IntVal(0)
    leap = 'S' in v and e.branch(v['S'] >= 60)
    sec = days_from_civil(y, m, d) * 86400 + v.get('H', z) * 3600 + v.get('M', z) * 60 + v.get('S', z)
    if dt and 'z' in fields:
        if leap:
            raise ValueError('second must be in 0..59')
        return SymDT(sec * US, _offset(found.group('z')))
    return SymTime(sec, -1, leap)


def _offset(t):
    """seconds of a matched offset, as the library reads it"""
    u = list(vec.vunits(t))
    at = lambda i: vec.mk(u[i:i + 1])
    num = lambda i: zi(vec.to_int(vec.mk(u[i:i + 2])))
    if len(u) == 1:
        return 0
    neg = rt.eq(at(0), '-')
    u = u[1:]
    if rt.eq(at(2), ':'):
        u = u[:2] + u[3:]
        if len(u) > 4:
            if not rt.eq(at(4), ':'):
                raise ValueError('Inconsistent use of :')
            u = u[:4] + u[5:]
    if len(u) > 6:
        raise Unsupported('fraction of a second in an offset')
    n = num(0) * 3600 + num(2) * 60
    if len(u) > 4:
        n = n + num(4)
    if not core.ENGINE.branch(n < 86400):
        raise ValueError('offset must be strictly between -24h and 24h')
    return z3.simplify(-n if neg else n)


for _c in (_dt.date,):
    NATURAL.add(_c)
