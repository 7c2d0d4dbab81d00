"""End-session requests."""
import json
from urllib.parse import urlencode
from harness.p10 import spec_ok, token_claims, verify_args
from oidcmsg.oidc import IdToken
from oidcmsg.oidc.session import EndSessionRequest

BOUNDS = 'EndSessionRequest with the redirect URI, the hint and the state each present, absent or blank, ' \
         'arbitrary values, built, read from JSON or from form data; hints that are good, expired, forged, ' \
         'tampered, unsigned, of an unknown issuer, encrypted, missing claims, no token; arbitrary claims, ' \
         'clock and expectations for a well signed hint'
OUTSIDE = 'signature arithmetic (cryptojwt); verify=False'
NOW = 1700000000
OP = 'https://op.example.org'
SLOT = '__verified_id_token_hint'


def read(X, d):
    how = X.pick('how', ['constructor', 'json', 'form', 'setitem'])
    if how == 'constructor':
        return EndSessionRequest(**d)
    if how == 'json':
        return EndSessionRequest().from_json(json.dumps(d))
    if how == 'form' and d:
        return EndSessionRequest().from_urlencoded(urlencode(d))
    m = EndSessionRequest()
    for k, v in d.items():
        m[k] = v
    return m


def presence(X):
    X.clock(NOW * 1000000)
    d = {}
    uri = X.pick('uri', ['absent', 'present'])
    hint = X.pick('hint', ['absent', 'good', 'expired', 'forged', 'tampered', 'unsigned', 'unknown issuer', 'text',
                           'encrypted', 'no sub', 'no iss', 'no aud', 'no exp', 'no iat'])
    if uri == 'present':
        d['post_logout_redirect_uri'] = X.str('uri_', minlen=1)
    if X.bool('state'):
        d['state'] = X.str('state_', minlen=1)
    claims = {'iss': OP, 'sub': X.str('sub', minlen=1), 'aud': ['me'], 'exp': NOW + 100, 'iat': NOW}
    if hint == 'expired':
        claims['exp'] = NOW - 1
    elif hint == 'unknown issuer':
        claims['iss'] = X.str('iss', minlen=1)
        X.assume(claims['iss'] != OP)
    elif hint.startswith('no '):
        del claims[hint[3:]]
    if hint == 'text':
        d['id_token_hint'] = X.nontoken('hint_')
    elif hint == 'encrypted':
        d['id_token_hint'] = X.jwe('RSA-OAEP', 'A128CBC-HS256', X.jwt('RS256', claims, 'op_rsa'), 'me_rsa')
    elif hint == 'unsigned':
        d['id_token_hint'] = X.jwt('none', claims, None)
    elif hint != 'absent':
        d['id_token_hint'] = X.jwt('RS256', claims, 'evil_rsa' if hint == 'forged' else 'op_rsa', hint == 'tampered')
    m = read(X, d)
    if X.bool('planted'):
        m[SLOT] = {'sub': 'x'}
    kw = {'keyjar': X.keyjar([('', ['me_rsa']), (OP, ['op_rsa'])])}
    if hint == 'unsigned' and X.bool('allow'):
        kw['allow_sign_alg_none'] = True
    o = X.run(m.verify, **kw)
    X.note('verify', o.kind)
    good = uri == 'absent' if hint == 'absent' else (hint == 'good' or 'allow_sign_alg_none' in kw)
    if good:
        X.reach('accepted')
        X.check(o.ok and o.value is True, 'a correct end-session request is refused')
        if hint == 'absent':
            X.check(SLOT not in m, 'a verified hint without a hint')
        else:
            X.check(isinstance(m[SLOT], IdToken) and m[SLOT]['sub'] == claims['sub'], 'the verified hint is another')
    else:
        X.reach('refused')
        X.check(not (o.ok and o.value), 'a redirect without a hint is accepted' if hint == 'absent' else
                'an end-session request with an unacceptable hint is accepted')


def claims(X):
    now = X.int('now', 10 ** 6, 2 ** 38)
    X.clock(now * 1000000)
    d = token_claims(X, 2)
    kw = verify_args(X)
    jar = X.keyjar([('', ['me_rsa']), (d['iss'], ['op_rsa'])])
    m = EndSessionRequest(id_token_hint=X.jwt('RS256', d, 'op_rsa'), post_logout_redirect_uri='https://rp/')
    o = X.run(m.verify, keyjar=jar, **kw)
    X.note('verify', o)
    if spec_ok(d, kw, now):
        X.reach('claims accepted')
        X.check(o.ok and o.value is True, 'a correct end-session request is refused')
    else:
        X.reach('claims refused')
        X.check(not (o.ok and o.value), 'an end-session request with an unacceptable hint is accepted')


CASES = {'presence': presence, 'claims': claims}
EXPECT_REACHED = ['accepted', 'refused', 'claims accepted', 'claims refused']
