"""Durations."""
import re

from oidcmsg import time_util as tu

BOUNDS = 'every well-formed duration with numbers of one and two digits (seconds also with a fraction of one or two ' \
         'digits), with and without sign; and every text of up to 7 (thorough: 9) characters over digits, the designators, ' \
         '"-", "." and "U"'
OUTSIDE = 'numbers written with blanks, underscores, "+", exponents or non-ASCII digits, which int() and float() ' \
          'read; "P" alone; seconds written "1." or ".5"; add_duration, whose results the existing tests pin ' \
          'although they are no calendar arithmetic'
EXPECT_REACHED = ['duration', 'fraction', 'accepted', 'refused']
QUICK_BUDGET = 200
UNITS = [('Y', 'tm_year'), ('M', 'tm_mon'), ('D', 'tm_mday'), ('H', 'tm_hour'), ('M', 'tm_min'), ('S', 'tm_sec')]


def value(X, name, n):
    """a number of n digits: (text, value)"""
    s = X.vec(name, n, n, '0-9')
    v = 0
    for c in s:
        v = v * 10 + (ord(c) - 48)
    return s, v


def wellformed(X):
    neg = X.bool('negative')
    t, want = ('-' if neg else '') + 'P', {}
    timed = False
    for i, (code, key) in enumerate(UNITS):
        n = X.pick(key, [0, 1, 2])
        if n == 0:
            want[key] = 0
            continue
        if i >= 3 and not timed:
            timed = True
            t = t + 'T'
        s, v = value(X, 'n' + key, n)
        t, want[key] = t + s + code, v
    X.assume(not t == 'P' and not t == '-P')
    r = X.run(tu.parse_duration, t)
    X.note('ok', r.ok)
    X.check(r.ok, 'a correct duration is refused')
    sign, d = r.value
    X.check(sign == ('-' if neg else '+'), 'the sign is lost')
    for code, key in UNITS:
        X.note(key, d[key])
        X.check(d[key] == want[key], 'a number of the duration is lost or moved')
    X.reach('duration')


def fraction(X):
    neg = X.bool('negative')
    others = X.pick('others', ['', '1Y', '2M', '3DT4H', '1YT5M', '4H5M', '7M'])
    w, wv = value(X, 'w', X.pick('wn', [1, 2]))
    f, fv = value(X, 'f', X.pick('fn', [1, 2]))
    t = ('-' if neg else '') + 'P' + others + ('' if 'T' in others else 'T' if others in ('', '1Y', '2M') else '')
    if 'T' not in t:
        t = t.replace('P', 'PT')
    t = t + w + '.' + f + 'S'
    r = X.run(tu.parse_duration, t)
    X.note('ok', r.ok)
    X.check(r.ok, 'a correct duration is refused')
    sign, d = r.value
    X.check(d['tm_sec'] == float(w + '.' + f), 'the seconds are another number')
    want = {'': {}, '1Y': {'tm_year': 1}, '2M': {'tm_mon': 2}, '3DT4H': {'tm_mday': 3, 'tm_hour': 4},
            '1YT5M': {'tm_year': 1, 'tm_min': 5}, '4H5M': {'tm_hour': 4, 'tm_min': 5}, '7M': {'tm_min': 7}}[others]
    for code, key in UNITS[:5]:
        X.check(d[key] == want.get(key, 0), 'a number of the duration is lost or moved')
    X.reach('fraction')


GRAMMAR = re.compile(r'-?P(?:([0-9]+)Y)?(?:([0-9]+)M)?(?:([0-9]+)D)?'
                     r'(T(?:([0-9]+)H)?(?:([0-9]+)M)?(?:([0-9]+)(\.[0-9]+)?S)?)?')
ODD = re.compile(r'.*(\.S|[PTYMDHS-]\.).*')


def any_text(X):
    t = X.vec('t', 9 if X.tier == 'thorough' else 7, 1, '0-9PTYMDHSU.-')
    X.assume(not t == 'P' and not t == '-P')
    X.assume(ODD.fullmatch(t) is None)
    r = X.run(tu.parse_duration, t)
    X.note('ok', r.ok)
    m = GRAMMAR.fullmatch(t)
    if m is None or t[-1] == 'T':
        X.check(not r.ok, 'a text that is no duration is taken for one')
        X.reach('refused')
        return
    X.check(r.ok, 'a correct duration is refused')
    sign, d = r.value
    X.check((sign == '-') == (t[0] == '-'), 'the sign is lost')
    for (code, key), g in zip(UNITS, (1, 2, 3, 5, 6, 7)):
        s = m.group(g)
        if g == 7 and s is not None and m.group(8) is not None:
            X.check(d[key] == float(s + m.group(8)), 'the seconds are another number')
        else:
            X.check(d[key] == (0 if s is None else int(s)), 'a number of the duration is lost or moved')
    X.reach('accepted')


CASES = {'well-formed': wellformed, 'fraction': fraction, 'any text': any_text}
