"""Who an authorization response is from and for."""
import json
from urllib.parse import urlencode
from harness.common import beside, put
from oidcmsg.oauth2 import AuthorizationResponse
from oidcmsg.oidc import AuthorizationResponse as OidcResponse

BOUNDS = 'both AuthorizationResponse types; arbitrary client_id, iss and audience (a list of 1-3 or one ' \
         'string), each present or absent, built, read from JSON or from form data; every expectation ' \
         'given or not, arbitrary; with or without code / access token / error members'
BOUNDS += '; every rule also next to any one other declared member or one of arbitrary name'
OUTSIDE = 'empty members; responses with an ID Token (P12, P13, P10)'
CLS = {'oauth2': AuthorizationResponse, 'oidc': OidcResponse}


def acceptable(name, d, kw):
    if 'client_id' in d and 'client_id' in kw and d['client_id'] != kw['client_id']:
        return False
    if 'iss' in d and 'iss' in kw and d['iss'] != kw['iss']:
        return False
    if name == 'oidc' and 'aud' in d and 'client_id' in kw:
        aud = d['aud'] if isinstance(d['aud'], list) else [d['aud']]
        if kw['client_id'] not in aud:
            return False
    return True


def make(name):
    cls = CLS[name]

    def run(X):
        how = X.pick('how', ['constructor', 'json', 'form', 'setitem'])
        d = {}
        for c in ('client_id', 'iss'):
            if X.bool('has_' + c):
                d[c] = X.str(c, minlen=1)
        n = X.pick('auds', [None, 'str', 1, 2] + ([3] if X.tier == 'thorough' else []))
        if n == 'str':
            d['aud'] = X.str('aud', minlen=1)
        elif n:
            d['aud'] = [X.str('aud%d' % i, minlen=1) for i in range(n)]
        rest = X.pick('rest', ['code', 'token', 'error'] if name == 'oidc' else ['code', 'code and error'])
        if rest.startswith('code'):
            d['code'] = X.str('code', minlen=1)
            d['state'] = X.str('state', minlen=1)
        elif rest == 'token':
            d['access_token'] = X.str('token', minlen=1)
            d['token_type'] = 'Bearer'
        if rest.endswith('error'):
            d['error'] = 'invalid_request'
        kw = {}
        for c in ('client_id', 'iss'):
            if X.bool('expect_' + c):
                kw[c] = X.str('expected_' + c)
        if how == 'constructor':
            m = cls(**d)
        elif how == 'json':
            m = cls().from_json(json.dumps(d))
        elif how == 'form':
            m = cls().from_urlencoded(urlencode(d, doseq=True))
        else:
            m = cls()
            for k, v in d.items():
                m[k] = v
        before = dict(m.items())
        o = X.run(m.verify, **kw)
        X.note('verify', o)
        if acceptable(name, d, kw):
            X.reach('accepted')
            X.check(o.ok and o.value is True, 'a response that is for us is refused')
        else:
            X.reach('refused')
            X.check(not (o.ok and o.value), 'a response for or from somebody else is accepted')
        X.check(dict(m.items()) == before, 'verification changes the response')

    return run


def others(X):
    name = X.pick('class', list(CLS))
    d = {'client_id': 'me', 'iss': 'https://op', 'code': 'c'}
    kw = {'client_id': 'me', 'iss': 'https://op'}
    rule = X.pick('rule', ['client_id', 'iss'] + (['aud'] if name == 'oidc' else []))
    if rule == 'aud':
        d['aud'] = ['x', X.str('aud', minlen=1)]
    else:
        d[rule] = X.str('v', minlen=1)
    m = put(CLS[name](**d), beside(X, 'oidcmsg.%s:AuthorizationResponse' % name, [
        'client_id', 'iss', 'aud', 'code', 'id_token', 'error_description']))
    o = X.run(m.verify, **kw)
    X.note('verify', o.kind)
    if acceptable(name, d, kw):
        X.reach('accepted next to another member')
        X.check(o.ok and o.value is True, 'a response that is for us is refused for another member')
    else:
        X.reach('refused next to another member')
        X.check(not (o.ok and o.value), 'a response for or from somebody else is accepted next to another member')


CASES = {n: make(n) for n in CLS}
CASES['others'] = others
EXPECT_REACHED = ['accepted', 'refused', 'accepted next to another member', 'refused next to another member']
