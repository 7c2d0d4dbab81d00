"""Required members."""
from harness.common import SPEC, cls_of, fill, params, required, short

NOW = 1700000000
EVENTS = {'http://schemas.openid.net/event/backchannel-logout': {}}

# types with further rules of their own: a complete message may be refused for another reason
OWN = {'AuthorizationRequest', 'OpenIDRequest', 'IdToken', 'MessageWithIdToken',
       'CheckSessionRequest', 'RefreshSessionRequest', 'RefreshSessionResponse', 'LogoutToken',
       'BackChannelLogoutRequest', 'ProviderConfigurationResponse', 'EndSessionRequest',
       'JWTSecuredAuthorizationRequest', 'RegistrationRequest', 'RegistrationResponse', 'Evidence', 'JsonWebToken',
       'AuthnToken'}
BOUNDS = 'every message type (73) and every required member; the other required members carry ' \
         'arbitrary non-empty values, optional members are absent or (second variant) all arbitrary ' \
         'strings / lists of one string / integers; one or all required members missing; marked lax or not; tokens and request objects, where the type needs them, are good ones'
OUTSIDE = 'requests passed by reference (their content is not there yet); 0 as a required integer'


def optional_simple(key):
    name = key.split(':')[1]
    skip = {'request', 'request_uri', 'id_token', 'id_token_hint', 'birthdate', 'device_code',
            'error_description'}
    out = [n for n, s in params(key).items() if not s[1] and s[0] in ('str', 'int', '[str]')
           and n not in skip and not (s[2] or '').startswith('time')]
    return out


def context(X, key, name, kw):
    """values that satisfy the other rules of the type, as far as they are about required members"""
    tok = {'iss': 'https://op', 'sub': 's', 'aud': ['me'], 'exp': NOW + 100, 'iat': NOW}
    logout = {'iss': 'https://op', 'sub': 's', 'aud': ['me'], 'iat': NOW, 'jti': 'j', 'events': EVENTS}
    if name in ('CheckSessionRequest', 'RefreshSessionRequest', 'RefreshSessionResponse', 'MessageWithIdToken'):
        kw['keyjar'] = X.keyjar([('', ['me_oct']), ('https://op', ['op_rsa'])])
        return {'id_token': X.jwt('RS256', tok, 'op_rsa')}
    if name == 'BackChannelLogoutRequest':
        kw['keyjar'] = X.keyjar([('', ['me_oct']), ('https://op', ['op_rsa'])])
        return {'logout_token': X.jwt('RS256', logout, 'op_rsa')}
    if name == 'LogoutToken':
        return {'iat': NOW, 'events': EVENTS, 'sub': 's'}
    if name in ('IdToken', 'AuthnToken'):
        return dict(exp=NOW + 100, **({'iat': NOW} if name == 'IdToken' else {}))
    if name in ('AuthorizationRequest', 'OpenIDRequest') and key.startswith('oidcmsg.oidc:'):
        return {'scope': ['openid'], 'response_type': ['code']}
    if name == 'ProviderConfigurationResponse':
        return {'id_token_signing_alg_values_supported': ['RS256'], 'response_types_supported': ['id_token']}
    if name == 'Evidence':
        return {'type': 'utility_bill', 'provider': {'name': 'n'}}
    return {}


def make(key):
    cls = cls_of(key)
    name = key.split(':')[1]
    req = required(key)

    def run(X):
        extra, full = {}, False
        X.clock(1700000000 * 1000000)
        if name == 'JWTSecuredAuthorizationRequest':
            return jar(X)
        focus = X.pick('focus', ['none missing', 'all missing'] + req)
        mode = 'absent'
        kw = {}
        given = context(X, key, name, kw)
        members = fill(X, key, req, **given)
        extra.update({k: v for k, v in given.items() if k not in req})
        if focus not in ('none missing', 'all missing') and params(key)[focus][0] not in (
                'int', 'bool'):
            mode = X.pick('mode', ['absent', 'empty', 'null'])
        opt = optional_simple(key)
        if opt and X.bool('with_optional'):
            full = True
            extra.update(fill(X, key, [n for n in opt if n not in extra]))
        if focus == 'all missing':
            given = {}
        else:
            given = {k: v for k, v in members.items() if k != focus}
        given.update(extra)
        m = cls(set_defaults=False, **given)
        if mode == 'empty':
            m.update({focus: [] if params(key)[focus][0].startswith('[') else ''})
        elif mode == 'null':
            m.update({focus: None})
        m.lax = X.bool('lax')
        o = X.run(m.verify, **kw)
        X.note('verify', o)
        if focus == 'none missing' or (focus == 'all missing' and not req):
            X.reach('complete')
            if name not in OWN or not full:
                X.check(o.ok and o.value is True,
                        'a complete %s message is not accepted' % short(key))
        else:
            X.reach('incomplete')
            X.check(not o.ok, 'a %s message without a required member passes verification'
                    % short(key))

    def jar(X):
        kind = X.pick('kind', ['nothing', 'no response type', 'no client', 'complete'])
        m = cls(client_id=X.str('client_id', minlen=1))
        kw = {}
        if kind != 'nothing':
            d = {'response_type': ['code']} if kind != 'no response type' else {}
            if kind != 'no client':
                d['client_id'] = X.str('client', minlen=1)
            m['request'] = X.jwt('RS256', dict(d, iss='https://rp'), 'op_rsa')
            kw['keyjar'] = X.keyjar([('', ['me_oct']), ('https://rp', ['op_rsa'])])
        o = X.run(m.verify, **kw)
        if kind == 'complete':
            X.check(o.ok and o.value is True, 'a complete request object is not accepted')
            X.reach('complete')
            return
        X.note('verify', o)
        X.check(not o.ok, 'a request without request object, reference or response type verifies')

    return run


def device(X):
    """a device code makes the client and the grant type required"""
    key = 'oidcmsg.oauth2.device_authorization:AccessTokenRequest'
    given = fill(X, key, ['code', 'redirect_uri'])
    for n in ('grant_type', 'client_id'):
        if X.bool(n):
            given[n] = X.str('v_' + n, minlen=1)
    if X.bool('device'):
        given['device_code'] = X.str('device_code', minlen=1)
    m = cls_of(key)(set_defaults=False, **given)
    o = X.run(m.verify)
    if 'grant_type' not in given or ('device_code' in given and 'client_id' not in given):
        X.check(not o.ok, 'a device access token request without client or grant type verifies')
    else:
        X.check(o.ok and o.value is True, 'a complete device access token request is not accepted')


CASES = {short(k): make(k) for k in SPEC}
CASES['device code'] = device
EXPECT_REACHED = ['complete', 'incomplete']
