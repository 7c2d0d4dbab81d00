"""User-info content rules."""
import calendar

from oidcmsg.oidc import IdToken, OpenIDSchema

BOUNDS = 'user information and ID Tokens; birthdates: every text of 1 to 11 characters of Unicode up to U+2FFFF; a ' \
         'present, absent or null subject of any text, and up to two further members (declared, with language tag or ' \
         'undeclared, with any text value or null) built from a dictionary or as keyword arguments'
OUTSIDE = 'the birthdate "0000" (a year alone that is not given); null members of nested structures'
EXPECT_REACHED = ['date', 'year', 'no year', 'refused', 'verified', 'null', 'no subject']
QUICK_BUDGET = 200
NOW = 1700000000


def build(X, cls, d):
    d = dict(d)
    if cls is IdToken:
        X.clock(NOW * 1000000)
        d.update({'iss': 'https://op.example.org', 'aud': ['client'], 'exp': NOW + 600, 'iat': NOW})
    return cls().from_dict(d) if X.bool('from_dict') else cls(**d)


def number(t):
    v = 0
    for c in t:
        v = v * 10 + (ord(c) - 48)
    return v


def kind_of(b):
    """which of the three forms a birthdate has, or None"""
    n = len(b)
    if n != 4 and n != 10:
        return None
    for i, c in enumerate(b):
        if i in (4, 7):
            if c != '-':
                return None
        elif not '0' <= c <= '9':
            return None
    y = number(b[:4])
    if n == 4:
        return 'year' if y > 0 else 'year zero'
    m, d = number(b[5:7]), number(b[8:])
    if not 1 <= m <= 12 or d < 1:
        return None
    if d > calendar.monthrange(2000 if y == 0 else y, m)[1]:
        return None
    return 'date' if y > 0 else 'no year'


def birthdate(X):
    cls = X.pick('class', [OpenIDSchema, IdToken])
    b = X.vec('birthdate', 11, 1)
    msg = build(X, cls, {'sub': 'diana', 'birthdate': b})
    r = X.run(msg.verify)
    X.note('verify', r)
    k = kind_of(b)
    X.assume(k != 'year zero')
    if k is None:
        X.check(not (r.ok and r.value), 'something that is no birthdate is accepted')
        X.reach('refused')
    else:
        X.check(r.ok and r.value is True, 'a correct birthdate is refused')
        X.reach(k)


def members(X):
    cls = X.pick('class', [OpenIDSchema, IdToken])
    d = {}
    sub = X.pick('sub', ['text', 'null', 'absent'])
    if sub == 'text':
        d['sub'] = X.str('subject', minlen=1)
    elif sub == 'null':
        d['sub'] = None
    for i in range(2):
        name = X.pick('name%d' % i, [None] + [['name', 'email', 'family_name#ja-Kana-JP'], ['nickname', 'x_hobby']][i])
        if name is None:
            continue
        d[name] = None if X.bool('null%d' % i) else X.str('value%d' % i, minlen=1)
    msg = build(X, cls, d)
    r = X.run(msg.verify)
    X.note('verify', r)
    ok = r.ok and r.value is True
    if sub != 'text':
        X.check(not (r.ok and r.value), 'user information without a subject is accepted')
        X.reach('no subject')
    elif any(v is None for v in d.values()):
        X.check(not (r.ok and r.value), 'a null claim is accepted')
        X.reach('null')
    else:
        X.check(ok, 'correct user information is refused')
        X.reach('verified')


CASES = {'birthdate': birthdate, 'members': members}
