"""Client registration."""
import json
from harness.common import beside, put
from oidcmsg.oidc import RegistrationRequest, RegistrationResponse

BOUNDS = 'RegistrationRequest with every presence pattern of the redirect URIs, the three pairs of ' \
         'encryption parameters, the login-initiation URI and the signing algorithm, arbitrary contents; ' \
         'built, read from JSON or filled in member by member; RegistrationResponse with every presence ' \
         'pattern of the two parameters that go together and the required ones; verified twice'
BOUNDS += '; every rule also next to any one other declared member or one of arbitrary name'
OUTSIDE = 'blank members; schemes written in capitals'
PAIRS = ['request_object_encryption', 'id_token_encrypted_response', 'userinfo_encrypted_response']
DEFAULT = 'A128CBC-HS256'


def read(X, cls, d):
    how = X.pick('how', ['constructor', 'json', 'setitem'])
    if how == 'constructor':
        return cls(**d)
    if how == 'json':
        return cls().from_json(json.dumps(d))
    m = cls()
    for k, v in d.items():
        m[k] = v
    return m


def login_uri(X):
    kind = X.pick('login_kind', ['https', 'http', 'h', 'other'])
    if kind == 'https':
        return 'https:' + X.str('login')
    if kind == 'http':
        return 'http:' + X.vec('login', 12, 0, ' -~')
    if kind == 'h':
        return 'h' + X.vec('login', 6, 0, ' -@[-~')      # the scheme is not written in capitals
    u = X.str('login', minlen=1)
    X.assume(u[0] != 'h' and u[0] != 'H')
    return u


def login(X):
    request(X, True)


def request(X, logins=False):
    d = {}
    if logins or X.bool('has_uris'):
        d['redirect_uris'] = [X.str('uri', minlen=1)]
    good = 'redirect_uris' in d
    want = {}
    for p in PAIRS:
        s = X.pick(p, ['neither', 'alg', 'enc', 'both']) if not logins or p == PAIRS[0] else 'neither'
        if s in ('alg', 'both'):
            d[p + '_alg'] = X.str(p + '_alg', minlen=1)
            want[p + '_enc'] = DEFAULT
        if s in ('enc', 'both'):
            d[p + '_enc'] = X.str(p + '_enc', minlen=1)
            want[p + '_enc'] = d[p + '_enc']
        if s == 'enc':
            good = False
    if logins or X.bool('has_login'):
        u = login_uri(X) if logins else X.pick('login_scheme', ['https:', 'http:']) + X.str('login')
        d['initiate_login_uri'] = u
        good = good and u.startswith('https:')
    if X.bool('has_alg'):
        a = X.str('alg', minlen=1)
        d['token_endpoint_auth_signing_alg'] = a
        good = good and a != 'none'
    if X.tier == 'thorough':
        t = X.pick('type', ['', 'native', 'web', 'other'])
        if t:
            d['application_type'] = t
        good = good and t != 'other'
    m = read(X, RegistrationRequest, d)
    o = X.run(m.verify)
    X.note('verify', o)
    if good:
        X.reach('accepted')
        X.check(o.ok and o.value is True, 'a correct registration request is refused')
        full = dict(RegistrationRequest.c_default, **dict(d, **want))
        X.check(dict(m.items()) == full, 'the verified request has other members')
        X.check(m.verify() is True and dict(m.items()) == full, 'verifying again gives something else')
    else:
        X.reach('refused')
        X.check(not (o.ok and o.value), 'a registration request that breaks a rule is accepted')


def response(X):
    d = {}
    for c in ('client_id', 'registration_client_uri', 'registration_access_token', 'client_secret'):
        if X.bool('has_' + c):
            d[c] = X.str(c, minlen=1)
    for c in ('client_id_issued_at', 'client_secret_expires_at'):
        if X.bool('has_' + c):
            d[c] = X.int(c, 0, 2 ** 40)
    if X.bool('has_redirect_uris'):
        d['redirect_uris'] = [X.str('uri', minlen=1)]
    good = 'client_id' in d and 'redirect_uris' in d and (
        'registration_client_uri' in d) == ('registration_access_token' in d)
    m = read(X, RegistrationResponse, d)
    o = X.run(m.verify)
    X.note('verify', o)
    if good:
        X.reach('response accepted')
        X.check(o.ok and o.value is True, 'a correct registration response is refused')
        X.check(dict(m.items()) == d, 'the verified response has other members')
    else:
        X.reach('response refused')
        X.check(not (o.ok and o.value), 'a registration response that breaks a rule is accepted')


def others(X):
    """the rules are the same whatever else is registered"""
    d = {'redirect_uris': ['https://rp/cb']}
    good, want = True, {}
    rule = X.pick('rule', PAIRS + ['login', 'alg', 'missing', 'response'])
    cls, name = RegistrationRequest, 'RegistrationRequest'
    if rule in PAIRS:
        if X.bool('alg'):
            d[rule + '_alg'] = X.str('alg_', minlen=1)
            want[rule + '_enc'] = DEFAULT
        if X.bool('enc'):
            d[rule + '_enc'] = X.str('enc_', minlen=1)
            want = {}
        good = rule + '_alg' in d or rule + '_enc' not in d
    elif rule == 'login':
        d['initiate_login_uri'] = X.pick('scheme', ['https:', 'http:']) + X.str('login')
        good = d['initiate_login_uri'].startswith('https:')
    elif rule == 'alg':
        a = X.str('alg_', minlen=1)
        d['token_endpoint_auth_signing_alg'] = a
        good = a != 'none'
    elif rule == 'missing':
        del d['redirect_uris']
        good = False
    else:
        cls, name = RegistrationResponse, 'RegistrationResponse'
        d['client_id'] = X.str('client_id', minlen=1)
        for c in ('registration_client_uri', 'registration_access_token'):
            if X.bool('has_' + c):
                d[c] = X.str(c, minlen=1)
        good = ('registration_client_uri' in d) == ('registration_access_token' in d)
    skip = ['redirect_uris', 'client_id', 'initiate_login_uri', 'token_endpoint_auth_signing_alg',
            'registration_client_uri', 'registration_access_token', 'error_description']
    for p in PAIRS:
        skip.extend([p + '_alg', p + '_enc'])
    b = beside(X, 'oidcmsg.oidc:' + name, skip)
    m = put(cls(**d), b)
    o = X.run(m.verify)
    X.note('verify', o.kind)
    if good:
        X.reach('accepted next to another member')
        X.check(o.ok and o.value is True, 'a correct registration is refused for another member')
        full = dict(cls.c_default)
        for part in (d, want, b):
            put(full, part)
        have = dict(m.items())
        X.check(len(have) == len(full), 'the verified registration has other members')
        for k, v in full.items():
            X.check(k in have and have[k] == v, 'the verified registration has other members')
    else:
        X.reach('refused next to another member')
        X.check(not (o.ok and o.value), 'a registration that breaks a rule is accepted next to another member')


CASES = {'others': others, 'request': request, 'login': login, 'response': response}
EXPECT_REACHED = ['accepted', 'refused', 'response accepted', 'response refused',
                  'accepted next to another member', 'refused next to another member']
