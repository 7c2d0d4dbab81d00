"""Enumerated members."""
from harness.common import SPEC, cls_of, fill, params, required, short
from harness.p01 import optional_simple

BOUNDS = 'all 14 message types with enumerated members; value(s) arbitrary strings, lists of up to 3 ' \
         'elements (elements without blanks); given to the constructor, by item assignment, or in ' \
         'JSON; also when a list arrives blank separated in one string; without or with all optional text members and undeclared ones'
OUTSIDE = 'empty values (not stored)'
WITH = {'RegistrationRequest': {}, 'AuthorizationRequest': {'scope': ['openid'],
                                                           'response_type': ['code']},
        'OpenIDRequest': {'scope': ['openid'], 'response_type': ['code']}}


def make(key, member):
    cls = cls_of(key)
    name = key.split(':')[1]
    allowed = SPEC[key]['allowed'][member]
    islist = params(key)[member][0] == '[str]'

    def run(X):
        X.clock(1700000000 * 1000000)
        over = WITH.get(name, {})
        base = fill(X, key, [r for r in required(key) if r != member], **over)
        if islist:
            n = X.pick('n', [1, 2, 3])
            items = [X.str('e%d' % i, minlen=1, exclude=' ') for i in range(n)]
            val = items
        else:
            items = [X.str('e', minlen=1)]
            val = items[0]
        if X.bool('with others'):
            base.update(fill(X, key, [n for n in optional_simple(key) if n != member and n not in base and n not in SPEC[key]['allowed']],
                             initiate_login_uri='https://a/', token_endpoint_auth_signing_alg='RS256'))
            base.update(error='invalid_request', no_such_member='x')
        via = X.pick('via', ['constructor', 'setitem', 'json', 'blank separated'] if islist else [
            'constructor', 'setitem', 'json'])
        if via == 'constructor':
            m = cls(**dict(base, **{member: val}))
        elif via == 'setitem':
            m = cls(**base)
            m[member] = val
        elif via == 'json':
            import json
            m = cls().from_json(json.dumps(dict(base, **{member: val})))
        else:
            m = cls(**dict(base, **{member: ' '.join(items)}))
        m.lax = X.bool('lax') if via == 'constructor' else False
        o = X.run(m.verify)
        X.note('verify', o)
        ok = all(i in allowed for i in items)
        if ok and member == 'prompt' and len(items) > 1 and 'none' in items:
            ok = None       # the rule about prompt=none, not this one
        if ok:
            X.reach('inside')
            X.check(o.ok and o.value is True, '%s: a value of the enumeration of %s is refused' % (
                short(key), member))
        elif ok is False:
            X.reach('outside')
            X.check(not o.ok, '%s: a value outside the enumeration of %s is accepted' % (
                short(key), member))

    return run


CASES = {'%s.%s' % (short(k), m): make(k, m) for k in SPEC for m in SPEC[k]['allowed']}
EXPECT_REACHED = ['inside', 'outside']
