"""Published "verified" members."""
import json
from harness.common import cls_of
from oidcmsg.message import Message

BOUNDS = 'the nine message types that publish verified objects; slot members planted in the message ' \
         '(as text, object or instance; through the constructor, JSON, form data or item assignment) and inside the ' \
         'token / request object itself; with and without one of the other members; raw token absent, good, signed by somebody else, tampered, no token; ' \
         'verified once, or again after the raw token has been removed or replaced'
OUTSIDE = 'slots of tokens that the message type does not carry; verify=False'
NOW = 1700000000
OP = 'https://op.example.org'
BCL = 'http://schemas.openid.net/event/backchannel-logout'
AR = {'response_type': ['code'], 'client_id': 'client', 'redirect_uri': 'https://rp/cb', 'scope': ['openid'],
      'state': 'st'}
IDT = {'iss': OP, 'sub': 'sub', 'aud': ['client'], 'exp': NOW + 100, 'iat': NOW}
LOT = {'iss': OP, 'sub': 'sub', 'aud': ['client'], 'iat': NOW, 'jti': 'j', 'events': {BCL: {}}}
RO = {'response_type': 'code', 'client_id': 'client', 'redirect_uri': 'https://rp/cb', 'scope': 'openid',
      'state': 'other', 'iss': 'client'}
ALL = ['id_token', 'id_token_hint', 'request']
# what else may be in such a message
RESPONSE = {'error': 'invalid_request', 'state': 'st', 'scope': ['openid'], 'expires_in': 10, 'iss': OP,
            'refresh_token': 'rt'}
REQUEST = {'nonce': 'n', 'max_age': 10, 'prompt': ['login'], 'acr_values': ['x'], 'display': 'page',
           'login_hint': 'me', 'response_mode': 'query', 'registration': {'client_name': 'x'}}
CONTEXT = {'AuthorizationResponse': dict(RESPONSE, client_id='client', aud=['client']),
           'AccessTokenResponse': RESPONSE, 'MessageWithIdToken': RESPONSE, 'AuthorizationRequest': REQUEST,
           'OpenIDRequest': REQUEST, 'JWTSecuredAuthorizationRequest': {'nonce': 'n', 'state': 'x', 'scope': ['a']},
           'PushedAuthorizationRequest': {'nonce': 'n', 'state': 'x', 'scope': ['a']},
           'EndSessionRequest': {'state': 's', 'post_logout_redirect_uri': 'https://rp/out', 'ui_locales': ['en']},
           'BackChannelLogoutRequest': {'state': 's', 'id_token': 'x', 'error': 'e'}}
# type -> (raw member, content of the token, rest of the message, slots that have to be kept clean)
TYPES = {
    'oidcmsg.oidc:AccessTokenResponse': ('id_token', IDT, {'access_token': 'at', 'token_type': 'b'}, ALL),
    'oidcmsg.oidc:AuthorizationResponse': ('id_token', IDT, {'state': 'st'}, ALL),
    'oidcmsg.oidc:MessageWithIdToken': ('id_token', IDT, {}, ['id_token']),
    'oidcmsg.oidc:AuthorizationRequest': ('request', RO, AR, ALL),
    'oidcmsg.oidc:OpenIDRequest': ('request', RO, AR, ALL),
    'oidcmsg.oauth2:JWTSecuredAuthorizationRequest': ('request', RO, AR, ['request']),
    'oidcmsg.oauth2:PushedAuthorizationRequest': ('request', RO, AR, ['request']),
    'oidcmsg.oidc.session:EndSessionRequest': ('id_token_hint', IDT, {}, ALL),
    'oidcmsg.oidc.session:BackChannelLogoutRequest': ('logout_token', LOT, {}, ['logout_token']),
}


def slotname(c):
    return '__verified_' + c


def token(X, claims, state, evil):
    """(token, the text that identifies it)"""
    if state == 'not a token':
        return X.nontoken('tok'), None
    extra = X.str('extra', minlen=1)
    d = dict(claims, extra=extra)
    if evil:
        for c in ALL + ['logout_token']:
            d[slotname(c)] = {'sub': 'planted'}
        d['verified_id_token_hint'] = {'sub': 'planted'}
    return X.jwt('RS256', d, 'evil_rsa' if state == 'forged' else 'op_rsa', state == 'tampered'), extra


def jar(X):
    return X.keyjar([('', ['me_rsa']), (OP, ['op_rsa']), ('client', ['op_rsa'])])


def fill_in(X, cls, d, how):
    if how == 'constructor':
        return cls(**d)
    if how == 'json':
        return cls().from_json(json.dumps(d))
    m = cls()
    if how == 'setitem':
        for k, v in d.items():
            m[k] = v
    else:
        m.update(d)
    return m


def judge(X, key, m, o, raw, extra):
    """raw: state of the raw token in the message at the time of verification"""
    claim, _, _, slots = TYPES[key]
    if not (o.ok and o.value is True):
        return
    name = key.split(':')[1]
    X.check(raw in ('absent', 'good'), '%s: an unacceptable token is accepted' % name)
    for c in slots:
        s = slotname(c)
        if c == claim and raw == 'good':
            X.check(isinstance(m.get(s), Message) and m[s]['extra'] == extra,
                    '%s: %s is not the verified token' % (name, s))
            X.reach('published')
        else:
            X.check(s not in m, '%s: %s is there although nothing was verified' % (name, s))
            X.reach('clean')
    if claim == 'request' and slots == ALL:
        X.check('verified_id_token_hint' not in m,
                '%s: verified_id_token_hint is there although there is no such token' % name)


def make(key):
    cls = cls_of(key)
    claim, claims, rest, slots = TYPES[key]

    def run(X):
        X.clock(NOW * 1000000)
        more = CONTEXT[key.split(':')[1]]
        more_name = X.pick('context', [''] + sorted(more))
        state = X.pick('raw', ['absent', 'good', 'forged', 'tampered', 'not a token'])
        how = X.pick('how', ['constructor', 'json', 'setitem', 'update'] if not more_name or X.tier == 'thorough' else
                     ['constructor', 'json'])
        plant = X.pick('plant', ['nothing', 'text', 'object', 'message'])
        evil = plant != 'nothing' and X.bool('inside_too')
        d, extra = dict(rest), None
        if more_name:
            d[more_name] = more[more_name]
        if plant != 'nothing':
            for c in slots:
                x = X.str('planted_' + c, minlen=1)
                d[slotname(c)] = x if plant == 'text' else {'sub': x}
                if plant == 'message' and how != 'json':
                    d[slotname(c)] = Message(sub=x)
            if slots == ALL:
                d['verified_id_token_hint'] = {'sub': 'planted'}
        if state != 'absent':
            d[claim], extra = token(X, claims, state, evil)
        if key.endswith('JWTSecuredAuthorizationRequest') and state == 'absent':
            d['request_uri'] = 'https://rp/ro'
        m = fill_in(X, cls, d, how)
        kj = jar(X)
        o = X.run(m.verify, keyjar=kj)
        X.note('outcome', o.kind)
        judge(X, key, m, o, state, extra)
        if state == 'good' and o.ok:
            # and again with what is left
            again = X.pick('again', ['no', 'removed', 'forged'])
            if again == 'no':
                return
            if again == 'removed':
                if claim in m:
                    del m[claim]
                if key.endswith('JWTSecuredAuthorizationRequest'):
                    m['request_uri'] = 'https://rp/ro'
            else:
                m[claim] = X.jwt('RS256', claims, 'evil_rsa')
            o = X.run(m.verify, keyjar=kj)
            X.reach('again')
            judge(X, key, m, o, 'absent' if again == 'removed' else 'forged', None)

    return run


def hint(X):
    """the ID Token hint of an authorization request"""
    X.clock(NOW * 1000000)
    cls = cls_of(X.pick('cls', ['oidcmsg.oidc:AuthorizationRequest', 'oidcmsg.oidc:OpenIDRequest']))
    where = X.pick('where', ['nowhere', 'request', 'object'])
    state = X.pick('hint', ['good', 'forged', 'tampered', 'not a token'])
    tok, extra = token(X, IDT, state, X.bool('evil'))
    d = dict(AR)
    if X.bool('plant'):
        d['verified_id_token_hint'] = {'sub': X.str('planted', minlen=1)}
    ro = dict(RO)
    if where == 'object':
        ro['id_token_hint'] = tok
        ro['verified_id_token_hint'] = {'sub': 'planted'}
    if where == 'object' or X.bool('with_object'):
        d['request'] = X.jwt('RS256', ro, 'op_rsa')
    if where == 'request':
        d['id_token_hint'] = tok
    m = cls(**d)
    lost = where == 'request' and 'request' in d     # the object's members replace those of the request
    o = X.run(m.verify, keyjar=jar(X))
    X.note('outcome', o.kind)
    if where == 'nowhere' or lost:
        X.check(o.ok and o.value is True, 'a correct request is refused')
        X.check('verified_id_token_hint' not in m, 'a verified hint without a hint')
    elif state == 'good':
        X.check(o.ok and o.value is True, 'a correct request is refused')
        v = m['verified_id_token_hint']
        X.check(isinstance(v, Message) and v['extra'] == extra, 'the verified hint is not the hint')
    else:
        X.check(not (o.ok and o.value), 'an unacceptable ID Token hint is accepted')
    X.reach('hint')


CASES = {k.split(':')[0].split('.')[-1] + '.' + k.split(':')[1]: make(k) for k in TYPES}
CASES['hint of an authorization request'] = hint
EXPECT_REACHED = ['hint', 'published', 'clean', 'again']
