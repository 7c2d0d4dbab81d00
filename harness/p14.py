"""Reading signed (and encrypted) tokens."""
from oidcmsg.message import Message
from oidcmsg.oauth2 import AuthorizationRequest
from oidcmsg import verified_claim_name
from oidcmsg.oidc import AccessTokenResponse, IdToken, JsonWebToken
from oidcmsg.oidc.session import BACK_CHANNEL_LOGOUT_EVENT, BackChannelLogoutRequest, EndSessionRequest

BOUNDS = 'Message, AuthorizationRequest, IdToken and JsonWebToken; algorithms RS256, RS512, ES256, HS256, ' \
         'PS256, none and names of no algorithm; pinned: nothing, each of these, "none" or a list; the signature made with the ' \
         'sender\'s, our own or another party\'s key, tampered or not; key jar: every owner with or ' \
         'without the key, empty, absent; issuer in the claims (arbitrary text), given by the caller, or ' \
         'neither; plain or nested in an encrypted token for us or for someone else, tampered or ' \
         'not, with encryption algorithms pinned or not; the message filled in before or not'
BOUNDS += '; up to two keys of one type with and without names (kid) and every permission to leave the name out, ' \
          'also for tokens carried by token responses, end session and logout requests; keys limited to an algorithm; ' \
          'keys that are others (or none) when they are fetched anew'
OUTSIDE = 'jku; signature arithmetic (cryptojwt); ' \
          'verify=False'
CLS = {'Message': Message, 'AuthorizationRequest': AuthorizationRequest, 'IdToken': IdToken,
       'JsonWebToken': JsonWebToken}
KTY = {'RS': 'rsa', 'PS': 'rsa', 'ES': 'ec', 'HS': 'oct'}
SENDER, EVIL = 'https://sender.example.org', 'https://evil.example.org'


def signed(X):
    cls = CLS[X.pick('cls', list(CLS) if X.tier == 'thorough' else ['Message', 'IdToken'])]
    alg = X.pick('alg', ['RS256', 'ES256', 'HS256', 'none', 'PS256', 'RS512', 'NONE', 'XS256'])
    key, tampered = None, False
    if alg not in ('none', 'NONE', 'XS256'):
        k = KTY[alg[:2]]
        key = X.pick('key', ['op_' + k, 'evil_' + k] + (['me_' + k] if k != 'ec' else []))
        tampered = key.startswith('op') and X.bool('tampered')
    pin = X.pick('pin', [None, 'RS256', 'ES256', 'HS256', 'none', ['RS256', 'ES256']])
    d = {'sub': X.str('sub', minlen=1), 'x': X.str('x', minlen=1)}
    kw = {}
    who = X.pick('sender', ['claim', 'any claim', 'keyword', 'nobody'])
    if who == 'claim':
        d['iss'] = SENDER
    elif who == 'any claim':
        d['iss'] = X.str('iss', minlen=1)
    elif who == 'keyword':
        kw['issuer'] = SENDER
    op = X.pick('jar', [['op_rsa', 'op_ec', 'op_oct'], ['op_ec'], []])
    jar = [('', ['me_rsa', 'me_oct']), (SENDER, op), (EVIL, ['evil_rsa', 'evil_ec', 'evil_oct'])]
    X.assume(d.get('iss') != EVIL)
    if pin is not None:
        kw['sigalg'] = pin
    m = cls(set_defaults=False)
    o = X.run(m.from_jwt, X.jwt(alg, d, key, tampered), X.keyjar(jar), **kw)
    X.note('outcome', o)
    pinned = pin is None or alg == pin or (isinstance(pin, list) and alg in pin)
    if alg == 'none':
        good = pinned
    elif key is None:
        good = False             # no such algorithm
    else:
        owner = d.get('iss') or kw.get('issuer')
        if owner is None:
            usable = ['me_rsa', 'me_oct']
        elif owner == SENDER:
            usable = op + (['me_oct'] if alg == 'HS256' else [])
        else:
            usable = []
        good = pinned and key in usable and not tampered
    if good:
        X.reach('accepted')
        X.check(o.ok, 'a correctly signed message is refused')
        X.check(dict(o.value.items()) == d and o.value is m, 'the content is not the signed one')
        X.check(m.jws_header['alg'] == alg, 'the header is not the one of the token')
    else:
        X.reach('refused')
        X.check(not o.ok, 'a message without an acceptable signature is read')
        X.check(len(m) == 0 and m.jws_header is None, 'the refused content is in the message')


def no_jar(X):
    """without any key"""
    m = Message(old='x')
    alg = X.pick('alg', ['RS256', 'ES256', 'HS256'])
    jar = X.pick('jar', [None, 'empty'])
    d = {'iss': X.str('iss', minlen=1), 'x': 'y'} if X.bool('iss_there') else {'x': 'y'}
    o = X.run(m.from_jwt, X.jwt(alg, d, 'op_' + KTY[alg[:2]]), X.keyjar([]) if jar else None)
    X.check(not o.ok, 'a signed message is read without any key')
    X.check(dict(m.items()) == {'old': 'x'}, 'the refused content is in the message')


def rotated(X):
    """keys that are for another algorithm only, and keys that change when they are fetched anew"""
    alg = X.pick('alg', ['RS256', 'ES256', 'HS256'])
    t = KTY[alg[:2]]
    kinds = [[], ['op_' + t], ['op_%s@%s512' % (t, alg[:2])], ['op_%s@%s' % (t, alg)], ['evil_' + t], ['evil_%s@%s512' % (t, alg[:2])]]
    now = X.pick('keys', kinds)
    later = X.pick('keys fetched', [None] + kinds)
    key = X.pick('key', ['op_' + t, 'evil_' + t])
    tampered = X.bool('tampered')
    d = {'iss': SENDER, 'x': X.str('x', minlen=1)}
    kw = {'sigalg': alg} if X.bool('pinned') else {}
    m = Message()
    jar = X.keyjar([('', ['me_rsa']), (SENDER, now)], None if later is None else [('', ['me_rsa']), (SENDER, later)])
    o = X.run(m.from_jwt, X.jwt(alg, d, key, tampered), jar, **kw)
    X.note('outcome', o.ok)

    def fit(keys):
        return [k.split('@')[0] for k in keys if '@' not in k or k.endswith('@' + alg)]
    good = fit(now)
    if now and not good:
        X.reach('keys fetched anew')
        good = fit(now if later is None else later)
    if key in good and not tampered:
        X.reach('accepted with the keys there are')
        X.check(o.ok and dict(m.items()) == d, 'a correctly signed message is refused')
    else:
        X.check(not o.ok, 'a message is read though no key for it and its algorithm fits its signature')
        X.check(len(m) == 0, 'the refused content is in the message')


def named(X):
    """several keys of one kind with names"""
    alg = X.pick('alg', ['RS256', 'ES256', 'HS256'])
    t = KTY[alg[:2]]
    op, evil, me = 'op_' + t, 'evil_' + t, ('me_' + t if t != 'ec' else 'evil_ec')
    now = X.pick('keys', [[op], [op + '#a'], [op + '#a', me + '#b'], [me + '#b', op + '#a'], [me + '#a', op + '#b'], [op, me]])
    sign = X.pick('key', [op, op + '#a', op + '#b', evil, evil + '#a', me + '#b'])
    kw = {}
    how = X.pick('without a name', ['', 'allowed', 'issuer', 'issuer names', 'other issuer'])
    if how == 'allowed':
        kw['allow_missing_kid'] = True
    elif how == 'issuer':
        kw['no_kid_issuer'] = {SENDER: []}
    elif how == 'issuer names':
        kw['no_kid_issuer'] = {SENDER: ['a']}
    elif how == 'other issuer':
        kw['no_kid_issuer'] = {EVIL: []}
    d = {'iss': SENDER, 'x': X.str('x', minlen=1)}
    jar = X.keyjar([(EVIL, [evil + '#a']), (SENDER, now)])
    carrier = X.pick('in', ['', 'AccessTokenResponse', 'EndSessionRequest', 'BackChannelLogoutRequest'])
    if carrier == '':
        m = Message()
        o = X.run(m.from_jwt, X.jwt(alg, d, sign), jar, **kw)
        same = o.ok and dict(m.items()) == d
        none = not o.ok and len(m) == 0
    else:
        X.clock(1700000000 * 1000000)
        d.update({'sub': 's', 'aud': ['me'], 'exp': 1700000100, 'iat': 1700000000})
        if carrier == 'AccessTokenResponse':
            claim = 'id_token'
            m = AccessTokenResponse(access_token='a', token_type='b')
        elif carrier == 'EndSessionRequest':
            claim = 'id_token_hint'
            m = EndSessionRequest()
        else:
            claim = 'logout_token'
            m = BackChannelLogoutRequest()
            d['jti'] = 'j'
            d['events'] = {BACK_CHANNEL_LOGOUT_EVENT: {}}
            del d['exp']
        m[claim] = X.jwt(alg, d, sign)
        slot = verified_claim_name(claim)
        o = X.run(m.verify, keyjar=jar, **kw)
        same = o.ok and o.value is True and slot in m and dict(m[slot].items()) == d
        none = not (o.ok and o.value) and slot not in m
        X.reach('carried')
    X.note('outcome', o.ok)
    label, _, kid = sign.partition('#')
    if kid:
        good = sign in now
    else:
        fit = now
        if len(now) > 1 and how in ('', 'other issuer'):
            fit = []           # cannot tell which one it is
        elif len(now) > 1 and how == 'issuer names':
            fit = [k for k in now if k.endswith('#a')]
        good = label in [k.split('#')[0] for k in fit]
    if good:
        X.reach('accepted by name')
        X.check(same, 'a message signed with a named key is refused')
    else:
        X.reach('refused by name')
        X.check(none, 'a message signed with a key that may not be used is read')


def encrypted(X):
    d = {'iss': SENDER, 'x': X.str('x', minlen=1)}
    key = X.pick('key', ['op_rsa', 'evil_rsa'])
    tampered = X.bool('tampered')
    inner = X.jwt('RS256', d, key, tampered)
    to = X.pick('to', ['me_rsa', 'evil_rsa'])
    kw = {}
    if X.bool('pin_alg'):
        kw['encalg'] = X.pick('encalg', ['RSA-OAEP', 'RSA1_5'])
    if X.bool('pin_enc'):
        kw['encenc'] = X.pick('encenc', ['A128CBC-HS256', 'A256GCM'])
    if X.bool('pin_sig'):
        kw['sigalg'] = X.pick('sigalg', ['RS256', 'ES256'])
    damaged = X.bool('damaged')
    tok = X.jwe('RSA-OAEP', 'A128CBC-HS256', inner, to, damaged)
    m = Message()
    o = X.run(m.from_jwt, tok, X.keyjar([('', ['me_rsa']), (SENDER, ['op_rsa'])]), **kw)
    X.note('outcome', o.ok)
    good = not tampered and key == 'op_rsa' and to == 'me_rsa' and not damaged and kw.get('encalg', 'RSA-OAEP') == \
        'RSA-OAEP' and kw.get('encenc', 'A128CBC-HS256') == 'A128CBC-HS256' and kw.get(
            'sigalg', 'RS256') == 'RS256'
    return m, d, o, good


def nested(X):
    m, d, o, good = encrypted(X)
    X.check(o.ok == good, 'an encrypted message with an unacceptable signature, recipient or algorithm '
                          'is read' if o.ok else 'a correct encrypted message is refused')
    if o.ok:
        X.reach('decrypted')
        X.check(dict(m.items()) == d, 'the content is not the signed one')
    else:
        X.check(len(m) == 0, 'the refused content is in the message')
        X.reach('not decrypted')


CASES = {'named': named, 'rotated': rotated, 'signed': signed, 'no key': no_jar, 'nested': nested}
EXPECT_REACHED = ['accepted', 'refused', 'decrypted', 'not decrypted',
                  'keys fetched anew', 'accepted by name', 'carried', 'refused by name', 'accepted with the keys there are']
