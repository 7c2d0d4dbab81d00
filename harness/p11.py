"""JSON Web Token rules."""
from harness.common import beside, put
from oidcmsg.oidc import AuthnToken, JsonWebToken
from oidcmsg.exception import NotForMe  # noqa  (the error types are part of the interface)

BOUNDS = 'JsonWebToken and AuthnToken; any subset of the claims with arbitrary strings and times ' \
         '(|t| < 2^40), audiences of 1-3 (4 thorough), any subset of the expectations, arbitrary clock ' \
         'between 1970 and 10000 at microsecond resolution, skew 0-10^6 s'
BOUNDS += '; every rule also next to any one other declared member or one of arbitrary name'
OUTSIDE = 'empty strings and lists (not stored)'


def claims(X, required, n_max):
    d = {}
    for c in ('iss', 'sub', 'jti'):
        if c in required or X.bool('has_' + c):
            d[c] = X.str(c, minlen=1)
    for c in ('exp', 'iat', 'nbf'):
        if c in required or X.bool('has_' + c):
            d[c] = X.int(c, 1 if c in required else -2 ** 40, 2 ** 40)
    n = X.pick('n_aud', list(range(1 if 'aud' in required else 0, n_max + 1)))
    if n:
        d['aud'] = [X.str('aud%d' % i, minlen=1) for i in range(n)]
    return d


def expectations(X):
    kw = {}
    if X.bool('kw_iss'):
        kw['iss'] = X.str('exp_iss')
    if X.bool('kw_aud'):
        kw['aud'] = X.str('exp_aud')
    if X.bool('kw_skew'):
        kw['skew'] = X.int('skew', 0, 10 ** 6)
    return kw


def acceptable(d, kw, now):
    skew = kw.get('skew', 0)
    if 'exp' in d and now > d['exp'] + skew:
        return False
    if 'iat' in d and d['iat'] > now + skew:
        return False
    if 'nbf' in d and d['nbf'] > now + skew:
        return False
    if 'aud' in d and 'aud' in kw and kw['aud'] not in d['aud']:
        return False
    if 'iss' in d and 'iss' in kw and kw['iss'] != d['iss']:
        return False
    return True


def make(cls, required):
    def run(X):
        now = X.int('now', 10 ** 6, 2 ** 38)
        X.clock(now * 1000000 + X.int('us', 0, 999999))
        d = claims(X, required, 4 if X.tier == 'thorough' else 3)
        kw = expectations(X)
        t = cls(**d)
        o = X.run(t.verify, **kw)
        X.note('verify', o)
        if acceptable(d, kw, now):
            X.reach('accepted')
            X.check(o.ok and o.value is True, 'a correct JSON Web Token is refused')
        else:
            X.reach('refused')
            X.check(not (o.ok and o.value), 'a JSON Web Token that violates a rule is accepted')

    return run


def widens(X):
    """what is accepted with a skew is accepted with a larger one, and later expectations only narrow"""
    now = X.int('now', 10 ** 6, 2 ** 38)
    X.clock(now * 1000000)
    d = {c: X.int(c, 1, 2 ** 40) for c in ('exp', 'iat', 'nbf') if X.bool('has_' + c)}
    s1, more = X.int('skew', 0, 10 ** 6), X.int('more', 0, 10 ** 6)
    a = X.run(JsonWebToken(**d).verify, skew=s1)
    b = X.run(JsonWebToken(**d).verify, skew=s1 + more)
    n = X.run(JsonWebToken(**d).verify)
    X.check(b.ok or not a.ok, 'a larger skew refuses a token that a smaller one accepts')
    X.check(a.ok or not n.ok, 'a skew refuses a token that is accepted without')


def single_audience(X):
    """an audience that arrives as a string is the list with that string"""
    X.clock(1700000000 * 1000000)
    t = JsonWebToken().from_dict({'aud': X.str('aud', minlen=1, exclude=' ')})
    want = X.str('want')
    o = X.run(t.verify, aud=want)
    X.check(o.ok == (t['aud'] == [want]), 'the audience check is not about the whole audience')


def others(X):
    """the rules are the same whatever else the token says"""
    now = 1700000000
    X.clock(now * 1000000)
    cls = X.pick('class', [JsonWebToken, AuthnToken])
    d = {'iss': 'me', 'sub': 'me', 'jti': 'j', 'aud': ['op', 'you'], 'exp': now + 600, 'iat': now, 'nbf': now}
    kw = {'iss': 'me', 'aud': 'op'}
    rule = X.pick('rule', ['iss', 'aud', 'exp', 'iat', 'nbf'])
    if rule == 'iss':
        d['iss'] = X.str('iss', minlen=1)
    elif rule == 'aud':
        d['aud'] = [X.str('aud', minlen=1)]
    else:
        d[rule] = X.int(rule, 1, 2 ** 40)
    if cls is AuthnToken:
        del d['nbf']
        X.assume(rule != 'nbf')
    if X.bool('skew'):
        kw['skew'] = 120
    t = put(cls(**d), beside(X, 'oidcmsg.oidc:%s' % cls.__name__, list(d) + ['nbf', 'error_description']))
    o = X.run(t.verify, **kw)
    X.note('verify', o)
    if acceptable(d, kw, now):
        X.reach('accepted next to another member')
        X.check(o.ok and o.value is True, 'a correct JSON Web Token is refused for another member')
    else:
        X.reach('refused next to another member')
        X.check(not (o.ok and o.value), 'a JSON Web Token that violates a rule is accepted next to another member')


CASES = {'others': others, 'JsonWebToken': make(JsonWebToken, ()), 'AuthnToken': make(
    AuthnToken, ('iss', 'sub', 'aud', 'jti', 'exp')), 'skew': widens, 'single audience': single_audience}
EXPECT_REACHED = ['accepted', 'refused', 'accepted next to another member', 'refused next to another member']
