"""ISO 8601 time stamps and dates of identity assurance."""
import calendar
from datetime import datetime, timedelta, timezone

from oidcmsg.oidc import identity_assurance as ia

BOUNDS = 'instants of 1970-2100 (2019-2024 in zones with daylight saving time), given as seconds (whole, with a ' \
         'fraction, or as text), as a datetime with or without a time zone, or not at all (the current time); local ' \
         'time in UTC, at +05:30, in central Europe and in New York (every change of the clocks included); texts ' \
         'YYYY-MM-DDThh:mm:ss with any digits and Z, ±hh, ±hhmm or ±hh:mm, dates YYYY-MM-DD with any digits, and any ' \
         'other text of up to 6 characters; time stamps of verification elements and dates of documents and ' \
         'evidence, as members'
OUTSIDE = 'fractions of seconds in texts, offsets with seconds, the 23rd and 25th hour of a day in a local time ' \
          'without offset; rounding of floating point'
EXPECT_REACHED = ['stamp', 'now', 'datetime', 'date', 'date text', 'text', 'refused', 'kept', 'member']
QUICK_BUDGET = 240
ZONES = ['UTC0', 'IST-5:30', 'CET-1CEST,M3.5.0,M10.5.0/3', 'EST5EDT,M3.2.0,M11.1.0']
EPOCH = datetime(1970, 1, 1)


def world(X):
    z = X.pick('zone', ZONES)
    X.zone(z)
    lo, hi = (0, 4102444799) if ',' not in z else (1546300800, 1735689599)
    n = X.int('now', lo, hi)
    X.clock(n * 1000000 + X.int('us', 0, 999999))
    return lo, hi, n


def stamp(X):
    lo, hi, n = world(X)
    t = X.int('t', lo, hi)
    how = X.pick('how', ['int', 'float', 'text', 'member', 'direct'])
    if how == 'int':
        o = X.run(ia.time_stamp_ser, t)
    elif how == 'float':
        o = X.run(ia.time_stamp_ser, t + X.pick('fraction', [0.0, 0.25, 0.75]))
    elif how == 'text':
        o = X.run(ia.time_stamp_ser, str(t))
    elif how == 'direct':
        o = X.run(ia.to_iso8601_2004_time, t)
    else:
        m = ia.VerificationElement(trust_framework='x', time=t)
        X.check(m['time'] == t, 'a time stamp given in seconds is changed')
        o = X.run(lambda: m.to_dict()['time'])
        X.reach('member')
    X.check(o.ok, 'a time stamp cannot be written')
    r = X.run(ia.time_stamp_deser, o.value)
    X.check(r.ok, 'a written time stamp is not read back')
    X.note('back', int(r.value))
    X.check(r.value == t, 'a time stamp denotes another instant than the one it was made from')
    X.check(ia.time_stamp_ser(o.value) == o.value, 'a time stamp in its text form is changed')
    X.reach('stamp')


def current(X):
    lo, hi, n = world(X)
    o = X.run(ia.to_iso8601_2004_time)
    X.check(o.ok, 'the current time cannot be written')
    r = ia.from_iso8601_2004_time(o.value)
    X.note('back', int(r))
    X.check(r == n, 'the current time is written as another one')
    X.reach('now')


def some_datetime(X):
    lo, hi, n = world(X)
    t = X.int('t', lo + 86400, hi - 86400)
    off = X.pick('offset', [None, 0, 330, -300, 60])
    d = EPOCH + timedelta(seconds=t)
    if off is not None:
        d = (d + timedelta(minutes=off)).replace(tzinfo=timezone(timedelta(minutes=off)))
        X.check(d.timestamp() == t, 'harness')
    else:
        t = int(d.timestamp())
    o = X.run(ia.to_iso8601_2004_time, d)
    X.check(o.ok, 'a datetime cannot be written')
    r = ia.from_iso8601_2004_time(o.value)
    X.note('back', int(r))
    X.check(r == t, 'a datetime is written as another instant')
    X.reach('datetime')


def date(X):
    lo, hi, n = world(X)
    t = X.int('t', lo, hi)
    how = X.pick('how', ['int', 'text', 'float', 'direct', 'now', 'datetime', 'member'])
    if how == 'text':
        o = X.run(ia.date_ser, str(t))
    elif how == 'int':
        o = X.run(ia.date_ser, t)
    elif how == 'float':
        o = X.run(ia.date_ser, t + 0.5)
    elif how == 'direct':
        o = X.run(ia.to_iso8601_2004_date, t)
    elif how == 'now':
        t = n
        o = X.run(ia.to_iso8601_2004_date)
    elif how == 'member':
        which = X.pick('which', ['date_of_issuance', 'date_of_expiry', 'date'])
        if which == 'date':
            o = X.run(lambda: ia.UtilityBill(provider=ia.Provider(name='n', street_address='s'), date=t).to_dict()['date'])
        else:
            o = X.run(lambda: ia.Document(type='x', number='1', issuer=ia.Issuer(name='n', country='c'),
                                          date_of_issuance=t, date_of_expiry=t).to_dict()[which])
        X.reach('member')
    else:
        o = X.run(ia.to_iso8601_2004_date, datetime.fromtimestamp(t))
    X.check(o.ok, 'a date cannot be written')
    r = X.run(ia.date_deser, o.value)
    X.check(r.ok, 'a written date is not read back')
    X.note('back', int(r.value))
    d = datetime.fromtimestamp(r.value) - EPOCH
    X.check(d == timedelta(days=d // timedelta(days=1)), 'a date is not the beginning of a day')
    w = datetime.fromtimestamp(t) - EPOCH
    X.check(w // timedelta(days=1) == d // timedelta(days=1), 'a date is not the local one of the instant')
    X.check(ia.date_ser(o.value) == o.value, 'a date in its text form is changed')
    X.reach('date')


def num(ds):
    n = 0
    for d in ds:
        n = n * 10 + (ord(d) - 48)
    return n


def possible(y, m, d):
    return y >= 1 and 1 <= m <= 12 and d >= 1 and d <= calendar.monthrange(y, m)[1]


def text(X):
    X.zone(X.pick('zone', ZONES[:2]))
    p = {k: X.vec(k, n, n, '0-9') for k, n in (('Y', 4), ('m', 2), ('d', 2), ('H', 2), ('M', 2), ('S', 2))}
    t = p['Y'] + '-' + p['m'] + '-' + p['d'] + 'T' + p['H'] + ':' + p['M'] + ':' + p['S']
    k = X.pick('zone of it', ['Z', 'hh', 'hhmm', 'hh:mm', 'none'])
    off = 0
    if k == 'Z':
        t = t + 'Z'
    elif k != 'none':
        s = X.pick('sign', ['+', '-'])
        h = X.vec('oh', 2, 2, '0-9')
        t = t + s + h
        off = num(h) * 3600
        X.assume(num(h) < 24)
        if k != 'hh':
            mm = X.vec('om', 2, 2, '0-9')
            t = t + (':' if ':' in k else '') + mm
            X.assume(num(mm) < 60)
            off = off + num(mm) * 60
        if s == '-':
            off = -off
    o = X.run(ia.time_stamp_deser, t)
    X.note('ok', o.ok)
    v = {k: num(p[k]) for k in p}
    X.assume(v['S'] < 60)
    good = k != 'none' and v['H'] < 24 and v['M'] < 60 and possible(v['Y'], v['m'], v['d'])
    if good and X.tier == 'quick':
        X.assume(v['Y'] >= 1970 and v['Y'] < 2100)
    elif good:
        X.assume(v['Y'] >= 2 and v['Y'] < 9999)
    if not good:
        X.check(not o.ok, 'a text that is no time stamp is read as one')
        X.check(o.is_exc(ValueError), 'a text that is no time stamp is refused with another error')
        X.reach('refused')
        return
    X.check(o.ok, 'a correct time stamp is refused')
    sec = calendar.timegm((v['Y'], v['m'], v['d'], v['H'], v['M'], v['S']))
    X.note('sec', int(o.value))
    X.check(o.value == sec - off, 'a time stamp is read as another instant')
    X.reach('text')


def date_text(X):
    z = X.pick('zone', ZONES[:2])
    X.zone(z)
    p = {k: X.vec(k, n, n, '0-9') for k, n in (('Y', 4), ('m', 2), ('d', 2))}
    o = X.run(ia.date_deser, p['Y'] + '-' + p['m'] + '-' + p['d'])
    X.note('ok', o.ok)
    v = {k: num(p[k]) for k in p}
    if not possible(v['Y'], v['m'], v['d']):
        X.check(not o.ok, 'a text that is no date is read as one')
        X.check(o.is_exc(ValueError), 'a text that is no date is refused with another error')
        X.reach('refused')
        return
    X.assume(v['Y'] >= 1970 and v['Y'] < 2100)
    X.check(o.ok, 'a correct date is refused')
    sec = calendar.timegm((v['Y'], v['m'], v['d'], 0, 0, 0)) - (0 if z == 'UTC0' else 19800)
    X.check(o.value == sec, 'a date is read as another day')
    X.reach('date text')


def other(X):
    X.zone('UTC0')
    X.clock(1700000000 * 1000000)
    ser, deser = (ia.time_stamp_ser, ia.time_stamp_deser) if X.bool('time') else (ia.date_ser, ia.date_deser)
    k = X.pick('value', ['garbage', 'None', 'list', 'object', 'seconds', 'fraction'])
    if k == 'garbage':
        t = X.vec('t', 6, 0, ' -~')
        o = X.run(deser, t)
        X.check(not o.ok, 'a short text is read as a time')
        X.check(o.is_exc(ValueError), 'a short text is refused with another error')
        X.reach('refused')
    elif k in ('None', 'list', 'object'):
        o = X.run(ser, {'None': None, 'list': [X.int('n')], 'object': {}}[k])
        X.check(not o.ok, 'something else is written as a time')
        X.check(o.is_exc(ValueError), 'something else is refused with another error')
        X.reach('refused')
    else:
        n = X.int('n', -10 ** 12, 10 ** 12)
        if k == 'fraction':
            n = n + 0.5
        o = X.run(deser, n)
        X.check(o.ok and o.value == n, 'a time given in seconds is changed')
        X.reach('kept')


CASES = {'stamp': stamp, 'now': current, 'datetime': some_datetime, 'date': date, 'text': text,
         'date text': date_text, 'other': other}
