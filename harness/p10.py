"""ID Token acceptance."""
from oidcmsg.oidc import IdToken
from harness.common import beside, put

BOUNDS = 'IdToken; audiences of 1-3, azp and nonce present or not, every subset of the expectations, arbitrary strings, ' \
         'times and clock (microseconds); every rule also next to any one other declared member or one of arbitrary name'
OUTSIDE = 'empty strings and lists (not stored); birthdates (P37)'
DAY = 86400
T0 = 1700000000


def token_claims(X, aud_max=3):
    """claims of a token that carries every required member"""
    n = X.pick('n_aud', list(range(1, aud_max + 1)))
    d = {'iss': X.str('iss', minlen=1), 'sub': X.str('sub', minlen=1),
         'aud': [X.str('aud%d' % i, minlen=1) for i in range(n)],
         'exp': X.int('exp', 1, 2 ** 40), 'iat': X.int('iat', 1, 2 ** 40)}
    if X.bool('has_azp'):
        d['azp'] = X.str('azp', minlen=1)
    if X.bool('has_nonce'):
        d['nonce'] = X.str('nonce', minlen=1)
    return d


def verify_args(X):
    kw = {}
    if X.bool('kw_iss'):
        kw['iss'] = X.str('exp_iss', minlen=1)
    if X.bool('kw_client'):
        kw['client_id'] = X.str('client_id', minlen=1)
    if X.bool('kw_nonce'):
        kw['nonce'] = X.str('exp_nonce', minlen=1)
    if X.bool('kw_skew'):
        kw['skew'] = X.int('skew', 0, 10 ** 6)
    if X.bool('kw_storage'):
        kw['nonce_storage_time'] = X.int('storage', 0, 10 ** 8)
    return kw


def spec_ok(d, kw, now):
    if 'iss' in kw and kw['iss'] != d['iss']:
        return False
    if 'client_id' in kw and kw['client_id'] not in d['aud']:
        return False
    if len(d['aud']) > 1:
        if 'azp' not in d or d['azp'] not in d['aud']:
            return False
    if 'azp' in d and 'client_id' in kw and d['azp'] != kw['client_id']:
        return False
    skew = kw.get('skew', 0)
    if now - skew > d['exp']:
        return False
    if d['iat'] + kw.get('nonce_storage_time', 4 * 3600) < now - skew:
        return False
    if 'nonce' in kw and 'nonce' in d and kw['nonce'] != d['nonce']:
        return False
    return True


def accept(X):
    now = X.int('now', 10 ** 6, 2 ** 38)
    X.clock(now * 1000000 + X.int('us', 0, 999999))
    d = token_claims(X)
    kw = verify_args(X)
    t = IdToken(**d)
    o = X.run(t.verify, **kw)
    X.note('verify', o)
    if spec_ok(d, kw, now):
        X.reach('accepted')
        X.check(o.ok and o.value is True, 'a correct ID Token is refused')
    else:
        X.reach('refused')
        X.check(not (o.ok and o.value), 'an ID Token that violates a rule is accepted')


def others(X):
    """the rules are the same whatever else the token says"""
    now = T0
    X.clock(now * 1000000)
    d = {'iss': 'https://op', 'sub': 'diana', 'aud': ['me', 'you'], 'azp': 'me', 'exp': T0 + 600, 'iat': T0, 'nonce': 'n'}
    kw = {'iss': 'https://op', 'client_id': 'me', 'nonce': 'n'}
    rule = X.pick('rule', ['iss', 'aud', 'azp', 'nonce', 'exp', 'iat'])
    if rule == 'aud':
        d['aud'] = [X.str('aud', minlen=1)]
    elif rule in ('exp', 'iat'):
        d[rule] = X.int(rule, 1, 2 ** 40)
    else:
        d[rule] = X.str(rule, minlen=1)
    t = put(IdToken(**d), beside(X, 'oidcmsg.oidc:IdToken', list(d) + ['birthdate', 'error_description']))
    o = X.run(t.verify, **kw)
    X.note('verify', o)
    if spec_ok(d, kw, now):
        X.reach('accepted next to another member')
        X.check(o.ok and o.value is True, 'a correct ID Token is refused for another member')
    else:
        X.reach('refused next to another member')
        X.check(not (o.ok and o.value), 'an ID Token that violates a rule is accepted next to another member')


CASES = {'accept': accept, 'others': others}
EXPECT_REACHED = ['accepted', 'refused', 'accepted next to another member', 'refused next to another member']
