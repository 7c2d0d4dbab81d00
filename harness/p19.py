"""Logout tokens and back-channel logout requests."""
from oidcmsg.oidc.session import BackChannelLogoutRequest, LogoutToken

BOUNDS = 'arbitrary claims; event tables of 0-2 members with arbitrary names and values of each JSON ' \
         'type; nonce present (empty, too) or not; without and with claims of other tokens; subject / session id present or not; 1-2 (3) audiences or one string; ' \
         'each required claim missing; arbitrary clock, skew and expectations, given or not; as an instance and as a signed ' \
         'token (RS256, ES256, none; signed by the issuer, somebody else, tampered) in a logout request, ' \
         'with the algorithm switches in each setting'
OUTSIDE = 'nested events inside further JSON text; audiences given as anything but text'
BCL = 'http://schemas.openid.net/event/backchannel-logout'
ISS = 'https://op.example.org'
NOW = 1700000000
SLOT = '__verified_logout_token'


def events(X, kinds):
    """(table, is it the right one)"""
    kind = X.pick('events', kinds)
    if kind == 'right':
        return {BCL: {}}, True
    if kind == 'any name':
        n = X.str('event', minlen=1)
        return {n: {}}, n == BCL
    if kind == 'value':
        v = X.pick('event_value', ['str', 'int', 'bool', 'list', 'object', 'null'])
        v = {'str': X.str('ev'), 'int': 0, 'bool': False, 'list': [], 'object': {'a': X.str('eo')},
             'null': None}[v]
        return {BCL: v}, False
    if kind == 'two':
        n = X.str('event', minlen=1)
        X.assume(n != BCL)
        return ({BCL: {}, n: {}} if X.bool('bcl_first') else {n: {}, BCL: {}}), False
    return {}, False


WHO = [('sub',), ('sid',), ('sub', 'sid'), ('nonce',), ('sub', 'nonce'), ('sid', 'nonce'), ()]
KINDS = ['right', 'any name', 'value', 'two', 'none']


def claims(X, kinds, who):
    d = {'iss': X.str('iss', minlen=1), 'iat': X.int('iat', 1, 2 ** 38), 'jti': X.str('jti', minlen=1)}
    n = X.pick('auds', [1, 2, 'str'] + ([3] if X.tier == 'thorough' else []))
    d['aud'] = X.str('aud', minlen=1, exclude=' ') if n == 'str' else [X.str('aud%d' % i, minlen=1) for i in range(n)]
    d['events'], right = events(X, kinds)
    for c in X.pick('who', who):
        d[c] = X.str(c, minlen=1)
    return d, right


def acceptable(d, right, kw, now, alg):
    for c in ('iss', 'aud', 'iat', 'jti', 'events'):
        if c not in d:
            return False
    if not right or 'nonce' in d or not ('sub' in d or 'sid' in d):
        return False
    if 'aud' in kw:
        if kw['aud'] not in (d['aud'] if isinstance(d['aud'], list) else [d['aud']]):
            return False
    if 'iss' in kw and kw['iss'] != d['iss']:
        return False
    if d['iat'] > now + kw.get('skew', 0):
        return False
    if kw.get('allowed_sign_alg') and kw['allowed_sign_alg'] != alg:
        return False
    return True


def expectations(X, now=None):
    kw = {}
    if X.bool('kw_aud'):
        kw['aud'] = X.str('exp_aud')
    if X.bool('kw_iss'):
        kw['iss'] = X.str('exp_iss')
    if X.bool('kw_skew'):
        kw['skew'] = X.int('skew', 0, 10 ** 6)
    return kw


def instance(X, kinds=['right', 'any name'], who=[('sub',), ('sid', 'nonce'), ()]):
    """the expectations against arbitrary claims"""
    now = X.int('now', 10 ** 6, 2 ** 38)
    X.clock(now * 1000000)
    d, right = claims(X, kinds, who)
    kw = expectations(X)
    m = LogoutToken(**d)
    o = X.run(m.verify, **kw)
    X.note('verify', o)
    judge(X, o, acceptable(d, right, kw, now, None))


def shape(X):
    """which claims there are"""
    X.clock(NOW * 1000000)
    d = {'iss': ISS, 'iat': NOW, 'jti': X.str('jti', minlen=1), 'aud': ['me']}
    d['events'], right = events(X, KINDS)
    for c in X.pick('who', WHO):
        d[c] = X.str(c, minlen=1)
    kw = {'aud': 'me', 'iss': ISS, 'skew': 10} if X.bool('kw') else {}
    if X.bool('with others'):
        d.update({'exp': NOW - 5, 'auth_time': 7, 'toe': 5, 'error': 'e', 'azp': 'x', 'txt': 't'})
    m = LogoutToken(**d)
    if 'nonce' not in d and X.bool('item nonce'):
        m['nonce'] = d['nonce'] = X.str('nonce_item')       # empty, too
    o = X.run(m.verify, **kw)
    X.note('verify', o)
    judge(X, o, acceptable(d, right, kw, NOW, None))


def missing(X):
    X.clock(NOW * 1000000)
    d = {'iss': ISS, 'iat': NOW, 'jti': 'j', 'aud': ['me'], 'sub': X.str('sub', minlen=1), 'events': {BCL: {}}}
    drop = X.pick('drop', ['nothing'] + list(d))
    d.pop(drop, None)
    alg = X.pick('alg', [None, 'RS256'])
    m = LogoutToken(**d)
    o = X.run(m.verify, **({'allowed_sign_alg': alg} if alg else {}))
    judge(X, o, drop == 'nothing' and not alg)


def judge(X, o, good):
    if good:
        X.reach('accepted')
        X.check(o.ok and o.value is True, 'a correct logout token is refused')
    else:
        X.reach('refused')
        X.check(not (o.ok and o.value), 'a logout token that violates a rule is accepted')


def request(X, d, right, alg, key, tampered, kw, jar, known=True):
    tok = X.jwt(alg, d, key, tampered)
    m = BackChannelLogoutRequest(logout_token=tok)
    if X.bool('planted'):
        m[SLOT] = {'sub': 'planted'}
    o = X.run(m.verify, keyjar=X.keyjar([('', ['me_rsa']), (ISS, jar)]), **kw)
    X.note('verify', o.kind)
    if alg == 'none':
        sig = kw.get('sigalg') == 'none' or (kw.get('allow_sign_alg_none') and not kw.get('sigalg'))
    else:
        sig = key in jar and not tampered and kw.get('sigalg', alg) == alg and d.get('iss') == ISS
    good = sig and acceptable(d, right, kw, NOW, alg)
    judge(X, o, good)
    if good:
        X.check(isinstance(m[SLOT], LogoutToken), 'the verified token is not published')
        X.check(dict(m[SLOT].items()) == dict(d, aud=d['aud'] if isinstance(d['aud'], list) else [d['aud']]),
                'the published token is not the received one')


def signed(X):
    X.clock(NOW * 1000000)
    alg = X.pick('alg', ['RS256', 'ES256', 'none'])
    key, tampered = None, False
    if alg != 'none':
        key = X.pick('key', ['op_', 'evil_']) + {'RS256': 'rsa', 'ES256': 'ec'}[alg]
        tampered = X.bool('tampered')
    d = {'iss': ISS, 'iat': NOW, 'jti': X.str('jti', minlen=1), 'aud': ['me'],
         'sub': X.str('sub', minlen=1), 'events': {BCL: {}}}
    if X.bool('any_issuer'):
        d['iss'] = X.str('iss', minlen=1)
    kw = {}
    for n, opts in (('allowed_sign_alg', [None, 'RS256', 'none'] + (['ES256', ''] if X.tier == 'thorough' else [])), ('sigalg', [None, 'RS256', 'none']),
                    ('allow_sign_alg_none', [None, True, False])):
        v = X.pick(n, opts)
        if v is not None:
            kw[n] = v
    request(X, d, True, alg, key, tampered, kw, X.pick('jar', [['op_rsa', 'op_ec'], ['op_ec'], []]))


def carried(X):
    """the claim rules hold for tokens that arrive in a request"""
    X.clock(NOW * 1000000)
    d, right = claims(X, KINDS, WHO) if X.tier == 'thorough' else claims(X, ['right'], [('sub',), ('sid', 'nonce')])
    drop = X.pick('drop', ['', 'iss', 'aud', 'iat', 'jti', 'events'])
    if drop:
        del d[drop]
    request(X, d, right, 'RS256', 'op_rsa', False, expectations(X) if not drop else {}, ['op_rsa'])


CASES = {'instance': instance, 'missing': missing, 'shape': shape, 'signed': signed, 'carried': carried}
EXPECT_REACHED = ['accepted', 'refused']
