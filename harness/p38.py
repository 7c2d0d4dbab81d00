"""Signed and encrypted forms of messages."""
import copy

from cryptojwt.jws.utils import left_hash
from harness.common import SPEC, cls_of, params, required, short, wire
from oidcmsg.message import Message
from oidcmsg.oidc import IdToken, make_openid_request

BOUNDS = 'signing and encrypting: 14 message types with their required members and any one optional member ' \
         '(arbitrary contents), or an undeclared member of any JSON kind; signing algorithms RS256, RS512, ES256, ' \
         'HS256, PS256 and none; key-management algorithms RSA-OAEP, RSA1_5, RSA-OAEP-256, ECDH-ES and ' \
         'ECDH-ES+A128KW with AES-CBC and AES-GCM content encryption; lists of one to three keys of any owner; the ' \
         'reader has the right keys, those of another party, or none; made with to_jwt / to_jwe or serialize, read ' \
         'with from_jwt / from_jwe or deserialize, into an empty message. ID Tokens: with and without code, access ' \
         'token, their hashes already there, exp already there, or any other one member; every lifetime and instant. Request objects: an ' \
         'OpenID or OAuth2 authorization request with any one optional member (also empty or 0), with and without members named ' \
         'iss, aud, exp, iat and jti of its own, every lifetime and instant'
OUTSIDE = 'the arithmetic of signatures and encryption (cryptojwt); key identifiers; keys of several sizes; ' \
          'symmetric key wrapping'
QUICK_BUDGET = 240
TYPES = ['oidcmsg.message:Message', 'oidcmsg.oauth2:AuthorizationRequest', 'oidcmsg.oidc:AuthorizationRequest',
         'oidcmsg.oidc:JsonWebToken', 'oidcmsg.oidc:RegistrationRequest', 'oidcmsg.oidc:OpenIDSchema',
         'oidcmsg.oidc:ClaimsRequest', 'oidcmsg.oidc.session:LogoutToken',
         'oidcmsg.oidc.identity_assurance:VerifiedClaims', 'oidcmsg.oauth2:TokenErrorResponse',
         'oidcmsg.oidc:ProviderConfigurationResponse', 'oidcmsg.oidc:AccessTokenResponse',
         'oidcmsg.oidc.identity_assurance:VerificationElement', 'oidcmsg.oidc:JRD']
KTY = {'RS': 'rsa', 'PS': 'rsa', 'ES': 'ec', 'HS': 'oct'}
ENC_KTY = {'RSA-OAEP': 'rsa', 'RSA1_5': 'rsa', 'RSA-OAEP-256': 'rsa', 'ECDH-ES': 'ec', 'ECDH-ES+A128KW': 'ec'}
OP, EVIL = 'https://op.example.org', 'https://evil.example.org'
ALGS = ['RS256', 'RS512', 'ES256', 'HS256', 'PS256', 'none']


def message(X, short_list):
    """a message of some type with arbitrary content"""
    key = X.pick('type', TYPES[:4] if short_list else TYPES)
    if key.endswith(':Message'):
        ps, req = {}, []
    else:
        ps, req = params(key), required(key)
    opt = [n for n in ps if n not in req and n != 'iss']
    which = X.pick('members', [None, 'extra'] + ([] if short_list else opt))
    d = {n: wire(X, ps[n], n) for n in req}
    if which == 'extra':
        k = X.pick('extra', ['str', 'int', 'list', 'object', 'bool'])
        if k == 'str':
            d['no_such_member'] = X.str('x', minlen=1)
        elif k == 'int':
            d['no_such_member'] = X.int('xi')
        elif k == 'list':
            d['no_such_member'] = [X.str('x', minlen=1), {'a': X.str('y')}, [X.int('xi')]]
        elif k == 'object':
            d['no_such_member'] = {'a': {'b': [X.str('x')]}, 'c': None}
        else:
            d['no_such_member'] = X.bool('xb')
    elif which is not None:
        d[which] = wire(X, ps[which], which)
    d['iss'] = OP
    return cls_of(key), d, short(key)


def sign(X, few, algs):
    cls, d, name = message(X, few)
    alg = X.pick('alg', algs)
    m = cls(set_defaults=False, **d)
    before = copy.deepcopy(m._dict)
    t = KTY.get(alg[:2])
    keys = X.pick('keys', [['op_rsa', 'op_ec', 'op_oct']] + (
        [['op_' + t], ['op_ec' if t != 'ec' else 'op_rsa']] if t and few else []))
    usable = t is None or 'op_' + t in keys
    if few and X.bool('serialize'):
        o = X.run(m.serialize, 'jwt', key=X.keys(keys), algorithm=alg)
    else:
        o = X.run(m.to_jwt, X.keys(keys), alg)
    X.check(m._dict == before, '%s: signing a message changes it' % name)
    if not usable:
        X.check(not o.ok, '%s: signed without a fitting key' % name)
        X.reach('no key')
        return
    X.check(o.ok, '%s: a message cannot be signed' % name)
    who = X.pick('reader', ['ours', 'theirs', 'none'] if few else ['ours'])
    jar = X.keyjar([('', []), (OP, {'ours': ['op_rsa', 'op_ec', 'op_oct'],
                                    'theirs': ['evil_rsa', 'evil_ec', 'evil_oct'], 'none': []}[who])])
    r = cls(set_defaults=False)
    if few and X.bool('deserialize'):
        b = X.run(r.deserialize, o.value, 'jwt', keyjar=jar)
    else:
        b = X.run(r.from_jwt, o.value, jar)
    X.note('read', b.ok)
    if who != 'ours' and alg != 'none':
        X.check(not b.ok and len(r) == 0, '%s: a signed message is read without the key of the signer' % name)
        X.reach('signature refused')
        return
    X.check(b.ok, '%s: the signed form of a message is not read back' % name)
    X.check(b.value == m and r == m, '%s: the signed form does not carry the message' % name)
    X.check(r.jws_header['alg'] == alg, '%s: signed with another algorithm than asked for' % name)
    X.reach('signed')


def signed(X):
    sign(X, True, ALGS)


def signed_types(X):
    sign(X, False, ['RS256'])


def encrypt(X, few):
    cls, d, name = message(X, few)
    alg = X.pick('alg', list(ENC_KTY) if few else ['RSA-OAEP'])
    enc = X.pick('enc', ['A128CBC-HS256', 'A256GCM'] if few else ['A128CBC-HS256'])
    m = cls(set_defaults=False, **d)
    before = copy.deepcopy(m._dict)
    t = ENC_KTY[alg]
    keys = X.pick('keys', [['op_oct', 'op_rsa', 'op_ec']] + ([['op_oct']] if few else []))
    if few and X.bool('serialize'):
        o = X.run(m.serialize, 'jwe', keys=X.keys(keys), enc=enc, alg=alg)
    else:
        o = X.run(m.to_jwe, X.keys(keys), enc, alg)
    X.check(m._dict == before, '%s: encrypting a message changes it' % name)
    if 'op_' + t not in keys:
        X.check(not o.ok, '%s: encrypted without a fitting key' % name)
        X.reach('no key')
        return
    X.check(o.ok, '%s: a message cannot be encrypted' % name)
    who = X.pick('reader', [['op_rsa', 'op_ec'], ['evil_' + t], ['op_oct']] if few else [['op_rsa']])
    r = cls(set_defaults=False)
    if few and X.bool('deserialize'):
        b = X.run(r.deserialize, o.value, 'jwe', keys=X.keys(who))
    else:
        b = X.run(r.from_jwe, o.value, X.keys(who))
    X.note('read', b.ok)
    if 'op_' + t not in who:
        X.check(not b.ok and len(r) == 0, '%s: an encrypted message is read without the key of the receiver' % name)
        X.reach('decryption refused')
        return
    X.check(b.ok, '%s: the encrypted form of a message is not read back' % name)
    X.check(b.value == m and r == m, '%s: the encrypted form does not carry the message' % name)
    X.reach('encrypted')


def encrypted(X):
    encrypt(X, True)


def encrypted_types(X):
    encrypt(X, False)


def id_token(X):
    now = X.int('now', 10 ** 9, 2 * 10 ** 9)
    X.clock(now * 1000000 + X.int('us', 0, 999999))
    alg = X.pick('alg', ALGS + ['RS384', 'HS512', 'PS384', 'PS512', 'ES384' if X.tier == 'thorough' else 'PS512'][:-1 if X.tier == 'quick' else None])
    d = {'iss': OP, 'sub': X.str('sub', minlen=1), 'aud': [X.str('client', minlen=1)]}
    other = None
    if alg in ('RS256', 'none') and X.bool('other member'):
        other = X.pick('other claim', [n for n in params('oidcmsg.oidc:IdToken') if n not in d and n not in (
            'access_token', 'code', 'at_hash', 'c_hash', 'exp', 'iat', 'nonce')])
        if other == 'auth_time':
            d[other] = X.int('auth_time', 1, 10 ** 9)
        elif other == 'birthdate':
            d[other] = '1990-01-01'
        elif not other.endswith('_verified'):
            d[other] = wire(X, params('oidcmsg.oidc:IdToken')[other], 'other')
        else:
            d[other] = X.bool('verified')
    else:
        if X.bool('nonce'):
            d['nonce'] = X.str('n', minlen=1)
        if X.bool('access_token'):
            d['access_token'] = X.str('at', minlen=1)
        if X.bool('code'):
            d['code'] = X.str('c', minlen=1)
        if X.bool('at_hash'):
            d['at_hash'] = X.str('ah', minlen=1)
        if X.bool('exp'):
            d['exp'] = X.int('e', 2 * 10 ** 9, 4 * 10 ** 9)
        if X.bool('iat'):
            d['iat'] = X.int('i', 1, 2 * 10 ** 9)
    life = X.int('lifetime', 0, 10 ** 6)
    t = IdToken(**d)
    o = X.run(t.to_jwt, X.keys(['op_rsa', 'op_ec', 'op_oct']), alg, lifetime=life)
    X.check(o.ok, 'an ID Token cannot be signed')
    jar = X.keyjar([('', []), (OP, ['op_rsa', 'op_ec', 'op_oct'])])
    r = X.run(IdToken().from_jwt, o.value, jar)
    X.check(r.ok, 'a signed ID Token is not read back')
    want = {k: v for k, v in d.items() if k not in ('access_token', 'code')}
    want['iat'] = now
    if life > 0:
        want['exp'] = now + life
    if alg != 'none':
        if 'access_token' in d:
            want['at_hash'] = left_hash(d['access_token'], 'HS' + alg[-3:])
        if 'code' in d:
            want['c_hash'] = left_hash(d['code'], 'HS' + alg[-3:])
    got = dict(r.value.items())
    X.check('access_token' not in got and 'code' not in got, 'an ID Token carries the access token or code itself')
    for n in want:
        X.check(n in got, 'an ID Token is signed without its %s' % n)
        X.check((got[n].to_dict() if isinstance(got[n], Message) else got[n]) == want[n],
                'an ID Token is signed with another %s' % n)
    X.check(len(got) == len(want), 'an ID Token is signed with members nobody gave')
    X.check(r.value.jws_header['alg'] == alg, 'an ID Token is signed with another algorithm than asked for')
    if 'exp' in want and other is None:
        v = X.run(r.value.verify, iss=OP, client_id=d['aud'][0])
        X.note('verify', v)
        X.check(v.ok and v.value is True, 'a freshly signed ID Token does not verify')
        X.reach('fresh')
    X.reach('id token')


def allowed(key):
    return SPEC[key]['allowed']


def request_object(X):
    now = X.int('now', 10 ** 9, 2 * 10 ** 9)
    X.clock(now * 1000000 + X.int('us', 0, 999999))
    key = X.pick('type', ['oidcmsg.oidc:AuthorizationRequest', 'oidcmsg.oauth2:AuthorizationRequest'])
    cls, ps, req = cls_of(key), params(key), required(key)
    which = X.pick('member', [None, 'extra', 'iss', 'aud', 'exp', 'iat', 'jti'] + [
        n for n in ps if n not in req and n not in ('request', 'request_uri')])
    d = {n: wire(X, ps[n], n) for n in req}
    if which in ('exp', 'iat'):
        d[which] = X.int('v', 1, 10 ** 6)
    elif which == 'aud':
        d['aud'] = [X.str('v', minlen=1)]
    elif which in ('extra', 'iss', 'jti'):
        d[which] = X.str('v', 20, 1)         # shorter than the identifiers that are made here
    elif which is not None:
        falsy = {'str': '', 'int': 0, 'dict': {}}.get(ps[which][0])
        if falsy is not None and which not in allowed(key) and X.bool('falsy'):
            d[which] = falsy
        else:
            d[which] = wire(X, ps[which], which)
    few = which in (None, 'exp', 'jti')
    alg = X.pick('alg', ['RS256', 'ES256', 'HS256', 'none'] if few else ['RS256'])
    life = X.int('lifetime', 0, 10 ** 6)
    jti = X.bool('with_jti') if few else False
    recv = X.str('recv', minlen=1)
    m = cls(set_defaults=False, **d)
    before = copy.deepcopy(m._dict)
    has = X.pick('keys', ['issuer', 'own', 'other', 'wrong type'] if which is None else ['issuer'])
    full = ['op_rsa', 'op_ec', 'op_oct']
    jar = {'issuer': [(OP, full)], 'own': [('', full)], 'other': [('', []), (EVIL, full)],
           'wrong type': [(OP, ['op_oct' if alg != 'HS256' else 'op_rsa']), (EVIL, full)]}[has]
    if life > 0 or X.bool('all given'):
        o = X.run(make_openid_request, m, X.keyjar(jar), OP, alg, recv, jti, life)
    else:
        o = X.run(make_openid_request, m, X.keyjar(jar), OP, alg, recv, with_jti=jti)
    X.check(m._dict == before, 'making a request object changes the request')
    X.note('made', o.ok)
    if alg != 'none' and has in ('other', 'wrong type'):
        X.check(not o.ok, 'a request object is signed with a key of someone else')
        X.reach('no key for it')
        return
    X.check(o.ok, 'a request object cannot be made')
    r = X.run(Message().from_jwt, o.value, X.keyjar([('', []), (OP, full)]))
    X.check(r.ok, 'a request object is not signed as its issuer')
    want = m.to_dict()
    want.update({'iss': OP, 'iat': now, 'aud': [recv]})
    if life > 0:
        want['exp'] = now + life
    got = dict(r.value.items())
    if jti:
        X.check(isinstance(got.get('jti'), str) and len(got['jti']) > 0 and got['jti'] != d.get('jti'),
                'a request object has no identifier of its own')
        want['jti'] = got['jti']
    for n in want:
        X.check(n in got, 'a request object lacks %s' % n)
        X.check(got[n] == want[n], 'a request object has another %s' % n)
    X.check(len(got) == len(want), 'a request object has members nobody gave')
    X.check(r.value.jws_header['alg'] == alg, 'a request object is signed with another algorithm than asked for')
    X.reach('request object')


CASES = {'signed': signed, 'signed types': signed_types, 'encrypted': encrypted, 'encrypted types': encrypted_types,
         'id token': id_token, 'request object': request_object}
EXPECT_REACHED = ['signed', 'signature refused', 'no key', 'encrypted', 'decryption refused', 'id token', 'fresh',
                  'request object', 'no key for it']
