"""Time utilities."""
import calendar
import time
from datetime import datetime
from datetime import timedelta

from oidcmsg import time_util as tu

BOUNDS = 'instants and clock readings between 1970 and 2100 (text: any date of the years 0001-9999 in ASCII ' \
         'digits, seconds with and without a fraction of up to 3 characters, and any other text of up to 6 ' \
         'ASCII characters), at microsecond resolution; offsets of up to 10^5 days, 10^9 seconds / microseconds ' \
         '/ milliseconds and 10^6 minutes / hours / weeks, positive or negative, any two units at once; times ' \
         'given as text, seconds or struct_time, in every combination'
OUTSIDE = 'empty points (None, 0, ""), for which "before" and "after" are both documented to be true; formats ' \
          'other than TIME_FORMAT; add_duration (not defined through the calendar, see DESIGN); leap seconds in ' \
          'comparisons; rounding of floating point'
EXPECT_REACHED = ['round trip', 'text ok', 'text refused', 'before', 'not before', 'later', 'earlier', 'offset',
                  'garbage']
QUICK_BUDGET = 120
END = 4102444800
US = 1000000
EPOCH = datetime(1970, 1, 1)
UNITS = ['days', 'seconds', 'microseconds', 'milliseconds', 'minutes', 'hours', 'weeks']
UNIT_US = {'days': 86400 * US, 'seconds': US, 'microseconds': 1, 'milliseconds': 1000, 'minutes': 60 * US,
           'hours': 3600 * US, 'weeks': 7 * 86400 * US}
LIM = {'days': 10 ** 5, 'seconds': 10 ** 9, 'microseconds': 10 ** 9, 'milliseconds': 10 ** 9, 'minutes': 10 ** 6,
       'hours': 10 ** 6, 'weeks': 10 ** 4}


def instant_at(us):
    return EPOCH + timedelta(microseconds=us)


def clock(X):
    now = X.int('now', 0, END)
    us = X.int('us', 0, 999999)
    X.clock(now * US + us)
    return now, now * US + us


def round_trip(X):
    t = X.int('t', 0, END)
    s = time.strftime(tu.TIME_FORMAT, time.gmtime(t))
    r = X.run(tu.str_to_time, s)
    X.check(r.ok, 'a formatted time is refused')
    X.note('back', calendar.timegm(r.value))
    X.check(calendar.timegm(r.value) == t, 'parsing a formatted time gives another instant')
    X.check(r.value == time.gmtime(t), 'parsing does not give a UTC time')
    X.reach('round trip')


def now_text(X):
    now, us = clock(X)
    s = tu.instant()
    r = tu.str_to_time(s)
    X.note('now', calendar.timegm(r))
    X.check(calendar.timegm(r) == now, 'the formatted current time is not the current time')


def num(ds):
    n = 0
    for d in ds:
        n = n * 10 + (ord(d) - 48)
    return n


SHAPE = 'YYYY-mm-ddTHH:MM:SSZ'
SEPS = {'-': '-', ':': ':', 'T': 'Tt', 'Z': 'Zz'}


def written(t):
    """the fields of a text of 20 characters written like a time, or None"""
    f = {}
    for c, k in zip(t, SHAPE):
        if k in SEPS:
            if not any(c == s for s in SEPS[k]):
                return None
        elif not '0' <= c <= '9':
            return None
        else:
            f.setdefault(k, []).append(c)
    return {k: num(x) for k, x in f.items()}


def possible(v):
    if not (v['Y'] >= 1 and 1 <= v['m'] <= 12 and v['d'] >= 1 and v['H'] <= 23 and v['M'] <= 59 and v['S'] <= 59):
        return False
    return v['d'] <= calendar.monthrange(v['Y'], v['m'])[1]


def seconds(v):
    return calendar.timegm((v['Y'], v['m'], v['d'], v['H'], v['M'], v['S']))


def judge(X, t, v):
    X.assume(v['S'] != 60)
    X.assume(v['S'] != 61)
    r = X.run(tu.str_to_time, t)
    X.note('ok', r.ok)
    if possible(v):
        X.check(r.ok, 'a correct time is refused')
        X.note('sec', calendar.timegm(r.value))
        X.check(calendar.timegm(r.value) == seconds(v), 'a time in text form is taken for another instant')
        X.reach('text ok')
    else:
        X.check(not r.ok, 'text that is no time is taken for one')
        X.reach('text refused')


def text(X):
    """every text of 20 characters with the separators in place"""
    t = X.vec('t', 20, 20, ' -~')
    X.assume(all(t[i] == k for i, k in enumerate(SHAPE) if k in SEPS))
    v = written(t)
    if v is not None:
        return judge(X, t, v)
    r = X.run(tu.str_to_time, t)
    X.note('ok', r.ok)
    if not r.ok:
        X.reach('garbage')
        return
    # numbers may be written with fewer digits (the day after a blank)
    v = {}
    for k, a, b in (('Y', 0, 4), ('m', 5, 7), ('d', 8, 10), ('H', 11, 13), ('M', 14, 16), ('S', 17, 19)):
        v[k] = t[a:b]
    X.check(v['d'][0] == ' ' and '1' <= v['d'][1] <= '9', 'text that is no time is taken for one')
    v['d'] = '0' + v['d'][1]
    for k in v:
        X.check(all('0' <= c <= '9' for c in v[k]), 'text that is no time is taken for one')
        v[k] = num(v[k])
    X.assume(v['S'] < 60)
    X.check(possible(v), 'text that is no time is taken for one')
    X.check(calendar.timegm(r.value) == seconds(v), 'a time in text form is taken for another instant')


def separators(X):
    """one separator replaced by any other character"""
    t = '2021-01-05T10:20:30Z'
    i = X.pick('at', [i for i, k in enumerate(SHAPE) if k in SEPS])
    c = X.vec('c', 1, 1)
    t = t[:i] + c + t[i + 1:]
    X.assume(not any(c == s for s in SEPS[SHAPE[i]]))
    r = X.run(tu.str_to_time, t)
    X.note('ok', r.ok)
    X.check(not r.ok, 'text that is no time is taken for one')
    X.reach('garbage')


def fraction(X):
    n = X.pick('digits', [0, 1, 3])
    u = X.vec('t', 14, 14, '0-9')
    f = X.vec('f', n, n, '0-9') if n else ''
    t = u[:4] + '-' + u[4:6] + '-' + u[6:8] + 'T' + u[8:10] + ':' + u[10:12] + ':' + u[12:]
    judge(X, t + '.' + f + 'Z', written(t + 'Z'))


def garbage(X):
    t = X.vec('t', 14, 1)
    r = X.run(tu.str_to_time, t)
    X.note('ok', r.ok)
    X.check(not r.ok, 'text that is no time is taken for one')
    X.reach('garbage')


KINDS = ['text', 'seconds', 'struct']


def point(t, kind):
    if kind == 'text':
        return time.strftime(tu.TIME_FORMAT, time.gmtime(t))
    if kind == 'struct':
        return time.gmtime(t)
    return t


def before(X):
    now, us = clock(X)
    t = X.int('t', 1, END)
    p = point(t, X.pick('kind', KINDS))
    b, a = tu.before(p), tu.after(p)
    X.note('before', b)
    X.note('after', a)
    X.check(b is True or b is False, 'before has no definite answer')
    X.check(b == (now < t), '"before" is not ordered like the instants')
    X.check(a == (not b), '"after" is not the complement of "before"')
    X.check(tu.not_before(p) == a and tu.not_on_or_after(p) == b and tu.valid(p) == b,
            'the other names are not the same')
    X.reach('before' if b else 'not before')


def later(X):
    a, b = X.int('a', 0, END), X.int('b', 0, END)
    ka, kb = X.pick('ka', KINDS), X.pick('kb', KINDS)
    r = tu.later_than(point(a, ka), point(b, kb))
    X.note('later', r)
    X.check(r == (a >= b), '"later than" is not ordered like the instants')
    X.reach('later' if r else 'earlier')


def shift(X):
    t, n = X.int('t', 0, END * US), X.int('n', -10 ** 9, 10 ** 9)
    dt = instant_at(t)
    r = X.run(tu.shift_time, dt, n)
    X.check(r.ok, 'shifting fails')
    X.note('moved', (r.value - EPOCH) // timedelta(microseconds=1))
    X.check(r.value - dt == timedelta(seconds=n), 'shifting moves by another amount')


def offsets(X):
    u1 = X.pick('u1', UNITS)
    rest = ['none'] + [u for u in UNITS if u > u1]
    u2 = X.pick('u2', rest)
    kw = {u1: X.int('o1', -LIM[u1], LIM[u1])}
    us = kw[u1] * UNIT_US[u1]
    if u2 != 'none':
        kw[u2] = X.int('o2', -LIM[u2], LIM[u2])
        us = us + kw[u2] * UNIT_US[u2]
    return kw, us


def in_range(X, us):
    X.assume(us >= 0)
    X.assume(us <= END * US)


def ahead(X):
    now, us = clock(X)
    kw, d = offsets(X)
    in_range(X, us + d)
    r = tu.time_in_a_while(**kw)
    X.note('at', (r - EPOCH) // timedelta(microseconds=1))
    X.check(r == instant_at(us + d), 'in a while is not the given time from now')
    s = tu.in_a_while(**kw)
    e = tu.epoch_in_a_while(**kw)
    X.note('epoch', e)
    X.check(e == (us + d) // US, 'the epoch in a while is not the given time from now')
    X.check(calendar.timegm(tu.str_to_time(s)) == (us + d) // US, 'the text of "in a while" is another time')
    X.reach('offset')


def ago(X):
    now, us = clock(X)
    kw, d = offsets(X)
    in_range(X, us - d)
    r = tu.time_a_while_ago(**kw)
    X.note('at', (r - EPOCH) // timedelta(microseconds=1))
    X.check(r == instant_at(us - d), 'a while ago is not the given time before now')
    s = tu.a_while_ago(**kw)
    X.check(calendar.timegm(tu.str_to_time(s)) == (us - d) // US, 'the text of "a while ago" is another time')
    X.reach('offset')


def positional(X):
    """the units in the order of the signature"""
    now, us = clock(X)
    i = X.pick('i', list(range(7)))
    n = X.int('n', -LIM[UNITS[i]], LIM[UNITS[i]])
    args = [0] * i + [n]
    d = n * UNIT_US[UNITS[i]]
    in_range(X, us + d)
    in_range(X, us - d)
    X.check(tu.time_in_a_while(*args) == instant_at(us + d), 'the units are mixed up')
    X.check(tu.time_a_while_ago(*args) == instant_at(us - d), 'the units are mixed up')
    X.check(tu.epoch_in_a_while(*args) == (us + d) // US, 'the units are mixed up')
    X.check(tu.str_to_time(tu.in_a_while(*args)) == time.gmtime((us + d) // US), 'the units are mixed up')
    X.check(tu.str_to_time(tu.a_while_ago(*args)) == time.gmtime((us - d) // US), 'the units are mixed up')


def readings(X):
    now, us = clock(X)
    a, b = tu.utc_time_sans_frac(), tu.time_sans_frac()
    X.note('a', a)
    X.note('b', b)
    X.check(a == now and b == now, 'the whole-second clock is not the clock truncated')


CASES = {'round trip': round_trip, 'now': now_text, 'text': text, 'fraction': fraction,
         'separators': separators, 'garbage': garbage, 'before': before,
         'later': later, 'shift': shift, 'ahead': ahead, 'ago': ago, 'positional': positional,
         'readings': readings}
