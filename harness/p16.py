"""OpenID authorization request rules."""
from harness.common import beside, put
from oidcmsg.oidc import AuthorizationRequest, OpenIDRequest

BOUNDS = 'AuthorizationRequest and OpenIDRequest; 1-2 (3 thorough) arbitrary response types and scopes, 0-2 (3) prompt '\
         'values out of the enumeration or arbitrary, nonce present or not, expected nonce given or not, ' \
         'each required member missing; the same when members come in a signed request object'
BOUNDS += '; every rule also next to any one other declared member or one of arbitrary name'
OUTSIDE = 'response types, scopes and prompts with blanks inside; empty values'
PROMPTS = ['none', 'login', 'consent', 'select_account']
NOW = 1700000000


def members(X, p=''):
    k = 3 if X.tier == 'thorough' else 2
    d = {'client_id': 'client', 'redirect_uri': X.str(p + 'uri', minlen=1)}
    for n, name in (('response_type', 'rt'), ('scope', 'sc')):
        d[n] = [X.str('%s%s%d' % (p, name, i), minlen=1, exclude=' ') for i in range(
            X.pick('%sn_%s' % (p, name), list(range(1, k + 1))))]
    np = X.pick(p + 'n_prompt', list(range(k + 1)))
    if np:
        d['prompt'] = [X.str('%sprompt%d' % (p, i), minlen=1, exclude=' ') for i in range(np)]
    if X.bool(p + 'has_nonce'):
        d['nonce'] = X.str(p + 'nonce', minlen=1)
    return d


def acceptable(d, kw):
    for r in ('response_type', 'client_id', 'redirect_uri', 'scope'):
        if r not in d:
            return False
    for p in d.get('prompt', []):
        if p not in PROMPTS:
            return False
    if 'id_token' in d['response_type']:
        if 'nonce' not in d:
            return False
        if 'nonce' in kw and kw['nonce'] != d['nonce']:
            return False
    if 'openid' not in d['scope']:
        return False
    if 'offline_access' in d['scope'] and 'consent' not in d.get('prompt', []):
        return False
    if 'none' in d.get('prompt', []) and len(d['prompt']) > 1:
        return False
    return True


def judge(X, m, d, kw, **more):
    o = X.run(m.verify, **dict(kw, **more))
    X.note('verify', o)
    if acceptable(d, kw):
        X.reach('accepted')
        X.check(o.ok and o.value is True, 'a correct request is refused')
    else:
        X.reach('refused')
        X.check(not (o.ok and o.value), 'a request that breaks a rule is accepted')


def plain(cls):
    def run(X):
        X.clock(NOW * 1000000)
        d = members(X)
        if len(d['response_type']) == 1 and len(d['scope']) == 1:
            miss = X.pick('missing', ['', 'response_type', 'client_id', 'redirect_uri', 'scope'])
            if miss:
                del d[miss]
        kw = {}
        if 'nonce' in d and X.bool('kw_nonce'):
            kw['nonce'] = X.str('exp_nonce')
        judge(X, cls(**d), d, kw)

    return run


def wire(X):
    """the lists arrive blank separated"""
    X.clock(NOW * 1000000)
    d = members(X)
    m = AuthorizationRequest(**{k: ' '.join(v) if isinstance(v, list) else v for k, v in d.items()})
    judge(X, m, d, {})


def by_object(X):
    """with a request object; what counts is the object"""
    X.clock(NOW * 1000000)
    base = {'response_type': ['code'], 'client_id': 'client', 'redirect_uri': 'https://rp/cb', 'scope': ['openid'],
            'nonce': 'n', 'prompt': ['consent']}
    ro = {'iss': 'client', 'client_id': 'client', 'redirect_uri': 'https://rp/cb'}
    rt, sc = X.str('rt', minlen=1, exclude=' '), X.str('sc', minlen=1, exclude=' ')
    s1 = X.pick('scope1', ['openid', 'email'])
    ro['response_type'] = rt
    ro['scope'] = s1 + ' ' + sc
    if X.bool('has_nonce'):
        ro['nonce'] = X.str('nonce', minlen=1)
    p = X.pick('prompt', ['', 'none', 'consent', 'none login', 'bad'])
    if p:
        ro['prompt'] = p
    miss = X.pick('missing', ['', 'response_type', 'client_id', 'redirect_uri', 'scope'])
    if miss:
        del ro[miss]
    m = AuthorizationRequest(request=X.jwt('RS256', ro, 'op_rsa'), **base)
    d = dict(ro, **{k: ro[k].split(' ') for k in ('scope', 'prompt', 'response_type') if k in ro})
    kw = {'nonce': X.str('exp_nonce', minlen=1)} if X.bool('kw_nonce') else {}
    judge(X, m, d, kw, keyjar=X.keyjar([('', ['me_rsa']), ('client', ['op_rsa'])]))


def others(X):
    """the rules are the same whatever else the request says"""
    X.clock(NOW * 1000000)
    cls = X.pick('class', [AuthorizationRequest, OpenIDRequest])
    d = {'client_id': 'client', 'redirect_uri': 'https://rp/cb', 'response_type': ['code'], 'scope': ['openid'],
         'nonce': 'n', 'prompt': ['consent']}
    kw = {'nonce': 'n'}
    rule = X.pick('rule', ['response_type', 'scope', 'prompt', 'prompts', 'nonce', 'no nonce', 'offline', 'missing'])
    if rule in ('nonce', 'no nonce'):
        d['response_type'] = ['code', 'id_token']
        d['nonce'] = X.str('nonce', minlen=1)
        if rule == 'no nonce':
            del d['nonce']
            kw = {}
    elif rule == 'prompts':
        d['prompt'] = ['none', X.pick('prompt1', PROMPTS[1:])]
    elif rule == 'offline':
        d['scope'] = ['openid', 'offline_access']
        if X.bool('has_prompt'):
            d['prompt'] = [X.pick('prompt0', PROMPTS)]
        else:
            del d['prompt']
    elif rule == 'missing':
        del d[X.pick('drop', ['response_type', 'client_id', 'redirect_uri', 'scope'])]
    else:
        d[rule] = [X.str('v', minlen=1, exclude=' ')]
    m = put(cls(**d), beside(X, 'oidcmsg.oidc:%s' % cls.__name__, [
        'client_id', 'redirect_uri', 'response_type', 'scope', 'nonce', 'prompt', 'request', 'id_token_hint']))
    o = X.run(m.verify, **kw)
    X.note('verify', o.kind)
    if acceptable(d, kw):
        X.reach('accepted next to another member')
        X.check(o.ok and o.value is True, 'a correct request is refused for another member')
    else:
        X.reach('refused next to another member')
        X.check(not (o.ok and o.value), 'a request that breaks a rule is accepted next to another member')


CASES = {'others': others, 'AuthorizationRequest': plain(AuthorizationRequest), 'OpenIDRequest': plain(OpenIDRequest),
         'blank separated': wire, 'request object': by_object}
EXPECT_REACHED = ['accepted', 'refused', 'accepted next to another member', 'refused next to another member']
