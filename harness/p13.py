"""Access token and code hashes."""
import hashlib
from cryptojwt.jws.utils import left_hash
from oidcmsg import verified_claim_name
from oidcmsg.oidc import AuthorizationResponse

BOUNDS = 'AuthorizationResponse with an ID Token signed with RS/PS/ES/HS 256, 384 and 512; access token ' \
         'and code present or not, arbitrary text, empty as well; without and with the other members, without and with expectations; at_hash / c_hash absent, other text, the hash of ' \
         'the right value under the right or another algorithm, or the hash of another value'
OUTSIDE = 'the hash functions themselves (taken as injective per algorithm, and different for different ' \
          'algorithms)'
NOW = 1700000000
KTY = {'RS': 'rsa', 'PS': 'rsa', 'ES': 'ec', 'HS': 'oct'}


def hash_claim(X, tag, tok, other, alg):
    kind = X.pick(tag + '_kind', ['absent', 'right', 'any', 'other value', 'other algorithm', 'prefix', 'extended'])
    if kind == 'absent':
        return None
    if kind == 'right':
        return left_hash(tok, 'HS' + alg[-3:])
    if kind == 'any':
        return X.str(tag + '_any', minlen=1, alphabet='!-,.')
    if kind == 'other value':
        return left_hash(other, 'HS' + alg[-3:])
    if kind == 'prefix':
        return left_hash(tok, 'HS' + alg[-3:])[:-1]
    if kind == 'extended':
        return left_hash(tok, 'HS' + alg[-3:]) + 'A'
    return left_hash(tok, 'HS' + {'256': '384', '384': '512', '512': '256'}[alg[-3:]])


def hashes(X):
    X.clock(NOW * 1000000)
    ctx = X.pick('context', ['none', 'members', 'expectations'])
    alg = X.pick('alg', ['RS256', 'HS256', 'HS384', 'RS384', 'HS512', 'RS512', 'PS256', 'ES256'] if ctx == 'none' or
                 X.tier == 'thorough' else ['ES256', 'HS384'])
    at, code = X.str('access_token'), X.str('code')
    kty = KTY[alg[:2]]
    d = {'iss': 'https://op', 'sub': 'sub', 'aud': ['me'], 'exp': NOW + 100, 'iat': NOW}
    ah = hash_claim(X, 'at', at, code, alg)
    ch = hash_claim(X, 'c', code, at, alg)
    if ah is not None:
        d['at_hash'] = ah
    if ch is not None:
        d['c_hash'] = ch
    m = {'id_token': X.jwt(alg, d, 'op_' + kty)}
    has_at, has_code = X.bool('has_at'), X.bool('has_code')
    if has_at:
        m.update({'access_token': at, 'token_type': 'Bearer'})
    if has_code:
        m['code'] = code
    if ctx == 'members':
        m.update({'error': 'e', 'state': 's', 'expires_in': 5, 'scope': ['openid'], 'iss': 'https://op', 'client_id': 'me',
                  'aud': ['me'], 'session_state': 'x'})
    kw = {'client_id': 'me', 'iss': 'https://op', 'skew': 5, 'nonce': 'n', 'allowed_sign_alg': alg,
          'sigalg': alg} if ctx == 'expectations' else {}
    if X.bool('empty_stored'):
        r = AuthorizationResponse()
        for k, v in m.items():
            r[k] = v
    else:
        X.assume(at != '' and code != '')       # the constructor leaves out empty members
        r = AuthorizationResponse(**m)
    o = X.run(r.verify, keyjar=X.keyjar([('https://op', ['op_rsa', 'op_ec', 'op_oct'])]), **kw)
    X.note('outcome', o)
    good = True
    if has_at and not (ah is not None and ah == left_hash(at, 'HS' + alg[-3:])):
        good = False
    if has_code and not (ch is not None and ch == left_hash(code, 'HS' + alg[-3:])):
        good = False
    if good:
        X.reach('bound')
        X.check(o.ok and o.value is True, 'a response with the right hashes is refused')
    else:
        X.reach('unbound')
        X.check(not (o.ok and o.value), 'an access token or code that the ID Token does not vouch for is accepted')
        X.check(verified_claim_name('id_token') not in r, 'the ID Token is exposed all the same')


def made_by_library(X):
    """what pack() puts in is what verify() wants"""
    from oidcmsg.oidc import IdToken
    X.clock(NOW * 1000000)
    alg = X.pick('alg', ['RS256', 'HS256', 'HS384', 'RS512', 'ES256'])
    kty = KTY[alg[:2]]
    at, code = X.str('access_token', minlen=1), X.str('code', minlen=1)
    t = IdToken(iss='https://op', sub='s', aud=['me'], exp=NOW + 100)
    if X.bool('with_at'):
        t['access_token'] = at
    if X.bool('with_code'):
        t['code'] = code
    has_at, has_code = 'access_token' in t, 'code' in t
    tok = t.to_jwt(X.keys(['op_' + kty]), alg, lifetime=X.int('lifetime', 1, 10 ** 6))
    X.check('access_token' not in t and 'code' not in t, 'the token holds the secret values')
    m = {'id_token': tok}
    if has_at:
        m.update({'access_token': at, 'token_type': 'Bearer'})
    if has_code:
        m['code'] = code
    r = AuthorizationResponse(**m)
    o = X.run(r.verify, keyjar=X.keyjar([('https://op', ['op_rsa', 'op_ec', 'op_oct'])]))
    X.note('outcome', o)
    X.check(o.ok and o.value is True, 'an ID Token made for the response is refused')


CASES = {'hashes': hashes, 'made by the library': made_by_library}
EXPECT_REACHED = ['bound', 'unbound']
