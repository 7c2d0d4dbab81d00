"""Merging request objects into requests."""
from harness.common import SPEC, params, put, value
from oidcmsg.message import Message
from oidcmsg.oauth2 import AuthorizationRequest, JWTSecuredAuthorizationRequest, PushedAuthorizationRequest
from oidcmsg.oidc import AuthorizationRequest as OidcRequest
from oidcmsg.oidc import OpenIDRequest

BOUNDS = 'the five authorization request types; the members client_id, response_type, state, scope in ' \
         'every presence pattern plus one (two thorough) member of arbitrary name in the request and ' \
         'one in the object; arbitrary values, an empty state; white lists of 0-2 arbitrary names, or none; by calling ' \
         'merge() and by verifying a request with a signed request object'
BOUNDS += '; each declared member in either, both or none, with values of its type or empty or zero'
OUTSIDE = 'other names of a policy than strict, lax, whitelist; encrypted request objects (P14)'
NOW = 1700000000
CLS = {'oauth2': AuthorizationRequest, 'oidc': OidcRequest, 'openid': OpenIDRequest,
       'jar': JWTSecuredAuthorizationRequest, 'par': PushedAuthorizationRequest}
VC = '__verified_request'


def val(X, k, p):
    if k in ('scope', 'response_type'):
        return [X.str('%s_%s' % (p, k), minlen=1, exclude=' ')]
    return X.str('%s_%s' % (p, k), minlen=1)


def members(X, names, p, more=1):
    """a dictionary with any of the names and some of arbitrary name"""
    d = {}
    for k in names:
        if X.bool('%s_has_%s' % (p, k)):
            d[k] = val(X, k, p)
    for i in range(more):
        n = X.str('%s_name%d' % (p, i), 3, 1, 'g-z')     # shorter than any declared name
        d[n] = X.str('%s_val%d' % (p, i), minlen=1)
    return d


def expected(base, obj, policy, white):
    out = {}
    for k, v in base.items():
        if k in obj or policy == 'lax' or (policy == 'whitelist' and k in (white or [])):
            out[k] = v
    for k, v in obj.items():
        out[k] = v
    return out


def merge(X):
    cls = CLS[X.pick('cls', list(CLS) if X.tier == 'thorough' else ['oauth2', 'oidc'])]
    names = ['state', 'scope']
    base = members(X, names, 'b')
    obj = members(X, names, 'o')
    policy = X.pick('policy', ['strict', 'lax', 'whitelist', 'default'])
    white = None
    if policy == 'whitelist':
        white = X.pick('white', [None, 0, 1, 2])
        if white is not None:
            white = [X.str('white%d' % i, 5, 1, 'a-z') for i in range(white)]
    m, r = cls(**base), cls(**obj)
    if 'state' not in obj and X.bool('empty'):         # empty values are kept if they are assigned
        r['state'] = obj['state'] = ''
    elif 'state' not in base and 'scope' not in base and X.bool('b_empty'):
        m['state'] = base['state'] = ''
    kind = X.pick('as', ['message', 'dict'])
    if kind == 'dict':
        r = dict(r.items())
    want = expected(base, obj, 'strict' if policy == 'default' else policy, white)
    if policy == 'default':
        o = X.run(m.merge, r)
    elif policy == 'whitelist':
        o = X.run(m.merge, r, policy, white)
    else:
        o = X.run(m.merge, r, policy)
    X.note('ok', o)
    X.check(o.ok, 'merging fails')
    for k in want:
        X.check(k in m, 'a member that must be there is lost')
        X.check(m[k] == want[k], 'a member has the wrong value')
    X.check(len(m) == len(want), 'a member survives that must not')
    X.check(dict(r.items()) == obj, 'the request object is changed')
    X.reach(policy)


def verified(name):
    cls = CLS[name]
    policy = 'lax' if name == 'par' else 'strict'

    def run(X):
        X.clock(NOW * 1000000)
        oidc = name in ('oidc', 'openid')
        base = members(X, ['state'], 'b')
        base['response_type'] = ['code']
        base['client_id'] = X.str('b_client', minlen=1)
        obj = members(X, ['state'], 'o')
        obj['response_type'] = [X.str('o_rt', minlen=1, exclude=' ')]
        obj['client_id'] = X.str('o_client', minlen=1)
        obj['iss'] = 'client'
        if oidc:
            base['scope'] = ['openid']
            base['redirect_uri'] = 'https://rp/cb'
            obj['redirect_uri'] = X.str('o_uri', minlen=1)
            obj['scope'] = ['openid', X.str('o_scope', minlen=1, exclude=' ')]
            obj['nonce'] = 'n'
            X.assume('offline_access' not in obj['scope'])
        base['request'] = X.jwt('RS256', {k: ' '.join(v) if isinstance(v, list) else v for k, v in obj.items()},
                                'op_rsa')
        m = cls(**base)
        o = X.run(m.verify, keyjar=X.keyjar([('', ['me_rsa']), ('client', ['op_rsa'])]))
        X.note('verify', o)
        X.check(o.ok and o.value is True, 'a correct request is refused')
        want = expected(base, obj, policy, None)
        got = {k: v for k, v in m.items() if k != VC}
        for k in want:
            X.check(k in got, 'a member that must be there is lost')
            X.check(got[k] == want[k], 'a member has the wrong value')
        X.check(len(got) == len(want), 'a member survives that must not')
        r = m[VC]
        X.check(isinstance(r, Message) and dict(r.items()) == obj, 'the published object is not the request object')
        X.reach(name)

    return run


EMPTY = {'int': 0, 'bool': False, '[str]': [], 'dict': {}, 'str': ''}
KEY = {'oauth2': 'oidcmsg.oauth2:AuthorizationRequest', 'oidc': 'oidcmsg.oidc:AuthorizationRequest',
       'openid': 'oidcmsg.oidc:OpenIDRequest', 'jar': 'oidcmsg.oauth2:JWTSecuredAuthorizationRequest',
       'par': 'oidcmsg.oauth2:PushedAuthorizationRequest'}


def declared(X):
    """every declared member, with values of its type and values that are empty or zero"""
    name = X.pick('cls', list(KEY))
    sp = params(KEY[name])
    n = X.pick('member', list(sp))
    base, obj = {'zz': 'kept?'}, {'yy': 'new'}
    for tag, d in (('b', base), ('o', obj)):
        how = X.pick(tag + '_has', ['no', 'value', 'empty'])
        if how == 'value':
            d[n] = value(X, sp[n], '%s_%s' % (tag, n), allowed=SPEC[KEY[name]]['allowed'].get(n))
        elif how == 'empty':
            X.assume(sp[n][0] in EMPTY and (sp[n][0] != 'dict' or not sp[n][3]))
            d[n] = EMPTY[sp[n][0]]
    policy = X.pick('policy', ['strict', 'lax', 'whitelist'])
    white = [n] if policy == 'whitelist' else None
    m, r = put(CLS[name](), base), put(CLS[name](), obj)
    want = expected(dict(m.items()), dict(r.items()), policy, white)
    o = X.run(m.merge, r, policy, white)
    X.check(o.ok, 'merging fails')
    for k in want:
        X.check(k in m, 'a member that must be there is lost')
        X.check(m[k] == want[k], 'a member has the wrong value')
    X.check(len(m) == len(want), 'a member survives that must not')
    X.reach('declared')


CASES = {'merge': merge, 'declared': declared}
for _n in ('oidc', 'openid', 'jar', 'par'):
    CASES['verified ' + _n] = verified(_n)
EXPECT_REACHED = ['strict', 'lax', 'whitelist', 'default', 'oidc', 'openid', 'jar', 'par', 'declared']
