"""Provider configurations."""
import json
import re
from harness.common import beside, put
from oidcmsg.oidc import ProviderConfigurationResponse

BOUNDS = 'issuers of arbitrary scheme, host, path, query and fragment; http allowed, forbidden or not said; ' \
         'published scopes, response types and ID Token algorithms: lists of 1-2 (3 thorough) strings of up to 6 (2 in longer lists of scopes) arbitrary ' \
         'characters (up to 12 for response types); token endpoint present or not; each required member missing; built, ' \
         'read from JSON or filled in member by member'
BOUNDS += '; every rule also next to any one other declared member or one of arbitrary name'
OUTSIDE = 'issuers that are no URL of the form scheme://host...; empty lists'
REQUIRED = ['issuer', 'authorization_endpoint', 'jwks_uri', 'response_types_supported',
            'subject_types_supported', 'id_token_signing_alg_values_supported']
BASE = {'issuer': 'https://op.example.org', 'authorization_endpoint': 'https://op/a', 'jwks_uri': 'https://op/j',
        'response_types_supported': ['id_token'], 'subject_types_supported': ['public'],
        'id_token_signing_alg_values_supported': ['RS256']}


def read(X, d):
    how = X.pick('how', ['constructor', 'json', 'setitem'])
    if how == 'constructor':
        return ProviderConfigurationResponse(**d)
    if how == 'json':
        return ProviderConfigurationResponse().from_json(json.dumps(d))
    m = ProviderConfigurationResponse()
    for k, v in d.items():
        m[k] = v
    return m


def judge(X, d, good, **kw):
    m = read(X, d)
    o = X.run(m.verify, **kw)
    X.note('verify', o)
    if good() if callable(good) else good:
        X.reach('accepted')
        X.check(o.ok and o.value is True, 'a correct provider configuration is refused')
        X.check(dict(m.items()) == dict(ProviderConfigurationResponse.c_default, **d), 'verification changes the message')
    else:
        X.reach('refused')
        X.check(not (o.ok and o.value), 'a provider configuration that breaks a rule is accepted')


def issuer(X):
    scheme = X.str('scheme', 6, 1, 'a-z')
    path = X.pick('path', ['', '/', 'any'])
    q = X.str('query', 6, 1, 'a-z=') if X.bool('has_query') else ''
    f = X.str('fragment', 6, 1, 'a-z') if X.bool('has_fragment') else ''
    url = X.url(scheme, X.str('host', 8, 1, 'a-z.'), '/' + X.str('path_', 6, 1, 'a-z/') if path == 'any' else path, q, f)
    kw = {}
    allow = X.pick('allow_http', [None, True, False])
    if allow is not None:
        kw['allow_http'] = allow
    good = (scheme == 'https' or (scheme == 'http' and bool(allow))) and not q and not f
    judge(X, dict(BASE, issuer=url), good, **kw)


def strings(X, name, n, maxlen, exclude=''):
    return [X.str('%s%d' % (name, i), maxlen, 1, exclude=exclude) for i in range(n)]


def ok_chars(s):
    return re.fullmatch(r'[\x21\x23-\x5b\x5d-\x7e]*', s) is not None


def scopes(X):
    n = X.pick('n', [1, 2] + ([3] if X.tier == 'thorough' else []))
    sc = strings(X, 'scope', n, 2 if n > 1 else 6)
    if X.bool('openid'):
        sc.insert(X.pick('at', [0, n]), 'openid')
    judge(X, dict(BASE, scopes_supported=sc), lambda: 'openid' in sc and all([ok_chars(s) for s in sc]))


def code_flow(X):
    n = X.pick('n', [1, 2] + ([3] if X.tier == 'thorough' else []))
    rt = strings(X, 'rt', n, 12)
    d = dict(BASE, response_types_supported=rt)
    if X.bool('endpoint'):
        d['token_endpoint'] = X.str('te', minlen=1)
    code = False
    for t in rt:
        if 'code' in t:
            code = True
    judge(X, d, not code or 'token_endpoint' in d)


def algorithms(X):
    n = X.pick('n', [1, 2] + ([3] if X.tier == 'thorough' else []))
    al = strings(X, 'alg', n, 6)
    judge(X, dict(BASE, id_token_signing_alg_values_supported=al), 'RS256' in al)


def missing(X):
    d = dict(BASE)
    d['op_policy_uri'] = X.str('policy', minlen=1)
    drop = X.pick('drop', REQUIRED + [''])
    d.pop(drop, None)
    judge(X, d, not drop)


def others(X):
    """the rules are the same whatever else is published"""
    d = dict(BASE, response_types_supported=['code'], token_endpoint='https://op/t', scopes_supported=['openid'])
    rule = X.pick('rule', ['issuer', 'part', 'scope', 'endpoint', 'alg', 'missing'])
    good = True
    if rule == 'issuer':
        scheme = X.str('scheme', 6, 1, 'a-z')
        d['issuer'] = X.url(scheme, 'op.example.org', '')
        good = scheme == 'https'
    elif rule == 'part':
        q, f = ('a=b', '') if X.bool('query') else ('', 'c')
        d['issuer'] = X.url('https', 'op.example.org', '', q, f)
        good = False
    elif rule == 'scope':
        d['scopes_supported'] = [X.str('scope', 4, 1, 'a-z'), X.str('scope2', 6, 1, 'a-z')]
        good = 'openid' in d['scopes_supported']
    elif rule == 'endpoint':
        d['response_types_supported'] = ['id_token', X.str('rt', 12, 1)]
        del d['token_endpoint']
        good = 'code' not in d['response_types_supported'][1]
    elif rule == 'alg':
        d['id_token_signing_alg_values_supported'] = ['ES256', X.str('alg', 6, 1)]
        good = 'RS256' in d['id_token_signing_alg_values_supported']
    else:
        del d[X.pick('drop', REQUIRED)]
        good = False
    skip = list(BASE) + ['token_endpoint', 'scopes_supported', 'error_description']
    m = put(ProviderConfigurationResponse(**d), beside(X, 'oidcmsg.oidc:ProviderConfigurationResponse', skip))
    o = X.run(m.verify)
    X.note('verify', o.kind)
    if good:
        X.reach('accepted next to another member')
        X.check(o.ok and o.value is True, 'a correct provider configuration is refused for another member')
    else:
        X.reach('refused next to another member')
        X.check(not (o.ok and o.value), 'a provider configuration that breaks a rule is accepted next to another member')


CASES = {'others': others, 'issuer': issuer, 'scopes': scopes, 'code flow': code_flow, 'algorithms': algorithms, 'missing': missing}
EXPECT_REACHED = ['accepted', 'refused', 'accepted next to another member', 'refused next to another member']
