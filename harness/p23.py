"""Character sets of error descriptions and scopes."""
import re
from oidcmsg.oauth2 import AuthorizationErrorResponse, ResponseMessage, TokenErrorResponse
from oidcmsg.oidc import SCOPE_CHARSET, ProviderConfigurationResponse, check_char_set
from harness.common import SPEC, cls_of, fill, params, required
from harness.p01 import context
from harness.p22 import BASE

BOUNDS = 'error descriptions, published scopes and check_char_set arguments of up to 6 (10 thorough) ' \
         'characters, each any character but NUL and surrogates; one or two scopes besides openid; any position'
BOUNDS += '; every response type with all it requires and a description of up to 2 (3) characters'
OUTSIDE = 'longer texts (each character is looked at on its own)'
DESCR = r'[\x20\x21\x23-\x5b\x5d-\x7e]*'
SCOPE = r'[\x21\x23-\x5b\x5d-\x7e]*'


def text(X, name, n=None):
    n = n or (10 if X.tier == 'thorough' else 6)
    return X.str(name, n, 1)


def description(X):
    cls = X.pick('cls', [ResponseMessage, AuthorizationErrorResponse, TokenErrorResponse])
    d = {'error': 'invalid_request', 'error_description': text(X, 'text')}
    if X.bool('uri'):
        d['error_uri'] = X.str('u', minlen=1)
    m = cls(**d)
    o = X.run(m.verify)
    X.note('verify', o)
    if re.fullmatch(DESCR, d['error_description']):
        X.reach('accepted')
        X.check(o.ok and o.value is True, 'an error description of allowed characters is refused')
    else:
        X.reach('refused')
        X.check(not (o.ok and o.value), 'an error description with a forbidden character is accepted')


def scope(X):
    s = text(X, 'text', 5)
    sc = ['openid', s]
    if X.bool('more'):
        sc.append(text(X, 'text2', 2))
    m = ProviderConfigurationResponse(**dict(BASE, scopes_supported=sc))
    o = X.run(m.verify)
    X.note('verify', o)
    good = True
    for t in sc[1:]:
        good = good and re.fullmatch(SCOPE, t) is not None
    if good:
        X.reach('scope accepted')
        X.check(o.ok and o.value is True, 'a scope of allowed characters is refused')
    else:
        X.reach('scope refused')
        X.check(not (o.ok and o.value), 'a scope with a forbidden character is accepted')


def charset(X):
    s = X.str('text', 10 if X.tier == 'thorough' else 6)
    o = X.run(check_char_set, s, SCOPE_CHARSET)
    X.note('check', o)
    X.check(o.ok == (re.fullmatch(SCOPE, s) is not None), 'the character set is not the one of the specification')


TYPES = [k for k in SPEC if 'error_description' in params(k) and issubclass(cls_of(k), ResponseMessage)]
NOW = 1700000000


def types(X):
    """every response type, next to everything it needs"""
    X.clock(NOW * 1000000)
    key = X.pick('type', TYPES)
    kw = {}
    name = key.split(':')[1]
    given = context(X, key, name, kw)
    d = fill(X, key, required(key), **given)
    for k, v in given.items():
        d[k] = v
    if X.bool('error'):
        d['error'] = 'invalid_request'
    good = X.run(cls_of(key)(**d).verify, **kw)
    t = X.vec('text', 3 if X.tier == 'thorough' else 2, 1)
    m = cls_of(key)(**d)
    m['error_description'] = t
    o = X.run(m.verify, **kw)
    X.note('verify', o.kind)
    if re.fullmatch(DESCR, t):
        X.check((o.ok and o.value is True) == (good.ok and good.value is True),
                'an error description of allowed characters makes a difference')
        X.reach('with description')
    else:
        X.check(not (o.ok and o.value), 'an error description with a forbidden character is accepted')
        X.reach('refused description')


CASES = {'types': types, 'description': description, 'scope': scope, 'charset': charset}
EXPECT_REACHED = ['accepted', 'refused', 'scope accepted', 'scope refused', 'with description',
                  'refused description']
