"""Messages that carry an ID Token."""
from harness.common import beside, put
from harness.p10 import spec_ok, token_claims, verify_args
from oidcmsg import verified_claim_name
from oidcmsg.oidc import AccessTokenResponse, AuthorizationResponse, IdToken, MessageWithIdToken
from oidcmsg.oidc.session import CheckSessionRequest, EndSessionRequest, RefreshSessionRequest, RefreshSessionResponse

BOUNDS = 'AccessTokenResponse, AuthorizationResponse, MessageWithIdToken and its three session variants, ' \
         'EndSessionRequest; token ' \
         'algorithms RS256, ES256, HS256, PS256 and none, signed with the issuer\'s key, ' \
         'another party\'s key or a shared secret, tampered or not; known / unknown / missing ' \
         'issuer (arbitrary text); key jars with both, one or no key of the issuer; every setting of ' \
         'the algorithm switches; text that is no token, an encrypted token, JSON text; and, for a good ' \
         'signature, the claim rules of P10 with arbitrary claims and expectations'
BOUNDS += '; every rule also next to any one other declared member or one of arbitrary name'
OUTSIDE = 'one key per type and owner, no key identifiers; signature arithmetic (cryptojwt); ' \
          'verify=False'
MSGS = {'AccessTokenResponse': (AccessTokenResponse, 'id_token', {'access_token': 'at', 'token_type': 'b'}),
        'AuthorizationResponse': (AuthorizationResponse, 'id_token', {}),
        'MessageWithIdToken': (MessageWithIdToken, 'id_token', {}),
        'EndSessionRequest': (EndSessionRequest, 'id_token_hint', {}),
        'CheckSessionRequest': (CheckSessionRequest, 'id_token', {}),
        'RefreshSessionRequest': (RefreshSessionRequest, 'id_token', {'redirect_url': 'https://rp', 'state': 's'}),
        'RefreshSessionResponse': (RefreshSessionResponse, 'id_token', {'state': 's'})}
VARIANTS = ('CheckSessionRequest', 'RefreshSessionRequest', 'RefreshSessionResponse')
KTY = {'RS256': 'rsa', 'PS256': 'rsa', 'ES256': 'ec', 'HS256': 'oct'}
NOW = 1700000000


def sigrules(alg, iss, known, key, tampered, jar, kw):
    """may this signature be accepted?"""
    pinned = kw.get('sigalg')
    if alg == 'none':
        if pinned and pinned != 'none':
            return False
        return pinned == 'none' or kw.get('allow_sign_alg_none', False) is not False
    if kw.get('allowed_sign_alg', alg) != alg:
        return False
    if pinned and pinned != alg:
        return False
    if iss is None or not (iss == known):
        return False
    # which of the keys that the jar holds may be used: those of the issuer (for secrets also our own)
    usable = jar['op'] + (jar['me'] if KTY[alg] == 'oct' else [])
    return key in usable and key.endswith('_' + KTY[alg]) and not tampered


def verify(X, name, tok, kw, planted=False):
    cls, claim, base = MSGS[name]
    m = cls(**dict(base, **{claim: tok}))
    slot = verified_claim_name(claim)
    if planted:
        m.update({slot: IdToken(sub='mallory')})
    o = X.run(m.verify, **kw)
    X.note('outcome', o)
    if o.ok and o.value is True:
        X.check(slot in m, 'the verified token is not exposed')
        X.check(isinstance(m[slot], IdToken), 'what is exposed is not an ID Token')
    elif not planted:
        X.check(slot not in m, 'an unverified token is exposed as verified')
    return o, m.get(slot)


def signature(name):
    def run(X):
        X.clock(NOW * 1000000)
        alg = X.pick('alg', ['RS256', 'ES256', 'HS256', 'none'] + (
            ['PS256'] if X.tier == 'thorough' else []))
        key, tampered = None, False
        if alg != 'none':
            key = X.pick('key', ['op_' + KTY[alg], 'evil_' + KTY[alg]] + (
                ['me_oct'] if alg == 'HS256' else []))
            tampered = X.bool('tampered')
        known = X.str('known_issuer', minlen=1)
        issuer = X.pick('issuer', ['any', 'missing'])
        d = {'sub': X.str('sub', minlen=1), 'aud': ['me'], 'exp': NOW + 100, 'iat': NOW}
        if issuer == 'any':
            d['iss'] = X.str('iss', minlen=1)
        jar = {'op': X.pick('keys', [['op_rsa', 'op_ec'], ['op_rsa', 'op_oct'], []]),
               'me': ['me_rsa', 'me_oct']}
        kj = X.keyjar([('', jar['me']), (known, jar['op']), ('https://evil.example.org', [
            'evil_rsa', 'evil_ec', 'evil_oct'])])
        X.assume(known != 'https://evil.example.org')
        X.assume(d.get('iss') != 'https://evil.example.org')
        kw = {'keyjar': kj}
        full = X.tier == 'thorough' or name == 'AuthorizationResponse'
        for n, opts in (('allow_sign_alg_none', [None, True, False]), ('sigalg', [None, 'RS256', 'none']),
                        ('allowed_sign_alg', [None, 'RS256', 'HS256'])):
            opts = opts if full or alg == 'none' else opts[:2]
            if name in VARIANTS and not full and n != 'allow_sign_alg_none':
                continue
            v = X.pick(n, opts)
            if v is not None:
                kw[n] = v
        o, idt = verify(X, name, X.jwt(alg, d, key, tampered), kw)
        good = sigrules(alg, d.get('iss'), known, key, tampered, jar, kw) and 'iss' in d
        if good:
            X.reach('accepted')
            X.check(o.ok and o.value is True, '%s: an acceptable ID Token is refused' % name)
            X.check(idt.to_dict() == d, '%s: the exposed token is not the one received' % name)
        else:
            X.reach('refused')
            X.check(not (o.ok and o.value), '%s: an ID Token with an unacceptable signature is accepted' % name)

    return run


def claims(name):
    def run(X):
        now = X.int('now', 10 ** 6, 2 ** 38)
        X.clock(now * 1000000)
        d = token_claims(X, 2)
        kw = verify_args(X)
        jar = X.keyjar([('', ['me_rsa']), (d['iss'], ['op_rsa'])])
        o, idt = verify(X, name, X.jwt('RS256', d, 'op_rsa'), dict(kw, keyjar=jar))
        if spec_ok(d, kw, now):
            X.reach('claims accepted')
            X.check(o.ok and o.value is True, '%s: a correct ID Token is refused' % name)
        else:
            X.reach('claims refused')
            X.check(not (o.ok and o.value), '%s: an ID Token that violates a claim rule is accepted' % name)

    return run


def others(X):
    """what counts is the token, whatever else the message or the token says"""
    X.clock(NOW * 1000000)
    name = X.pick('message', ['AccessTokenResponse', 'AuthorizationResponse', 'EndSessionRequest'])
    cls, claim, base = MSGS[name]
    d = {'iss': 'https://op', 'sub': X.str('sub', minlen=1), 'aud': ['me'], 'exp': NOW + 100, 'iat': NOW, 'nonce': 'n'}
    kw = {'keyjar': X.keyjar([('', ['me_rsa']), ('https://op', ['op_rsa']), ('https://evil', ['evil_rsa'])]),
          'iss': 'https://op', 'client_id': 'me', 'nonce': 'n'}
    what = X.pick('token', ['good', 'forged', 'tampered', 'unsigned', 'expired', 'audience', 'issuer', 'nonce'])
    if what == 'expired':
        d['exp'] = X.int('exp', 1, NOW - 1)
    if what == 'audience':
        d['aud'] = [X.str('aud', minlen=1)]
        X.assume(d['aud'][0] != 'me')
    if what == 'issuer':
        d['iss'] = 'https://evil'
    if what == 'nonce':
        d['nonce'] = X.str('nonce', minlen=1)
        X.assume(d['nonce'] != 'n')
    key = {'forged': 'evil_rsa', 'issuer': 'evil_rsa', 'unsigned': None}.get(what, 'op_rsa')
    tok = X.jwt('none' if what == 'unsigned' else 'RS256', d, key, what == 'tampered')
    m = cls(**dict(base, **{claim: tok}))
    m = put(m, beside(X, MSGKEY[name], list(base) + [
        claim, 'code', 'access_token', 'client_id', 'iss', 'aud', 'error_description']))
    o = X.run(m.verify, **kw)
    X.note('verify', o.kind)
    slot = verified_claim_name(claim)
    if what == 'good':
        X.check(o.ok and o.value is True, 'a message with a correct ID Token is refused for another member')
        X.check(m[slot].to_dict() == d, 'the exposed token is not the one received')
        X.reach('accepted next to another member')
    else:
        X.check(not (o.ok and o.value), 'a message with an unacceptable ID Token is accepted next to another member')
        X.check(slot not in m, 'an unverified token is exposed as verified')
        X.reach('refused next to another member')


MSGKEY = {'AccessTokenResponse': 'oidcmsg.oidc:AccessTokenResponse',
          'AuthorizationResponse': 'oidcmsg.oidc:AuthorizationResponse',
          'EndSessionRequest': 'oidcmsg.oidc.session:EndSessionRequest'}


def not_a_token(X):
    X.clock(NOW * 1000000)
    name = X.pick('message', list(MSGS))
    kind = X.pick('kind', ['text', 'encrypted', 'no key jar', 'required claim missing'])
    kj = X.keyjar([('', ['me_rsa', 'me_oct']), ('https://op', ['op_rsa'])])
    d = {'iss': 'https://op', 'sub': X.str('sub', minlen=1), 'aud': ['me'], 'exp': NOW + 100, 'iat': NOW}
    kw = {'keyjar': kj, 'allow_sign_alg_none': X.bool('allow')}
    if kind == 'text':
        tok = X.nontoken('tok')
    elif kind == 'encrypted':
        tok = X.jwe('RSA-OAEP', 'A128CBC-HS256', X.jwt('RS256', d, 'op_rsa'), 'me_rsa')
    elif kind == 'required claim missing':
        del d[X.pick('drop', list(d))]
        tok = X.jwt(X.pick('alg', ['RS256', 'none']), d, 'op_rsa')
    else:
        tok = X.jwt('RS256', d, 'op_rsa')
        del kw['keyjar']
    o, _ = verify(X, name, tok, kw, X.bool('planted'))
    X.check(not (o.ok and o.value), '%s: something that is no verifiable ID Token is accepted (%s)' % (
        name, kind))


CASES = {'signature ' + n: signature(n) for n in MSGS}
CASES.update({'claims ' + n: claims(n) for n in MSGS if n not in VARIANTS})
CASES['no token'] = not_a_token
CASES['others'] = others
EXPECT_REACHED = ['accepted', 'refused', 'claims accepted', 'claims refused', 'accepted next to another member',
                  'refused next to another member']
