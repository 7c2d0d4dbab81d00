"""Matching claims against claims specifications."""
from oidcmsg.message import Message
from oidcmsg.oidc import ClaimsRequest, claims_match

BOUNDS = 'specifications with any subset of essential, value, values (0-3 entries) and another member, ' \
         'in every order of the members; strings and integers, arbitrary; lists of one or two strings, objects, booleans and ' \
         'null, as the claim, as "value" and in "values"; as a dictionary, as a message ' \
         'and as part of a claims request that was read from a dictionary'
OUTSIDE = 'values that mix booleans and numbers'
KEYS = ['essential', 'value', 'values', 'other']


def scalar(X, name, kind):
    if kind == 'list':
        return [X.str('%s_%d' % (name, i)) for i in range(X.pick(name + ' n', [1, 2]))]
    if kind == 'dict':
        return {'a': X.str(name + '_a')}
    if kind == 'null':
        return None
    if kind == 'bool':
        return X.bool(name)
    return X.str(name) if kind == 'str' else X.int(name, -10, 2 ** 40)


def spec(X, kinds):
    keys = []
    for i in range(4):
        k = X.pick('key%d' % i, [None] + [k for k in KEYS if k not in keys])
        if k is None:
            break
        keys.append(k)
    d = {}
    for k in keys:
        if k == 'essential':
            d[k] = X.bool('essential')
        elif k == 'value':
            d[k] = scalar(X, 'spec_value', kinds[0])
        elif k == 'values':
            d[k] = [scalar(X, 'spec%d' % i, kinds[1] if i == 0 else kinds[0]) for i in range(X.pick('n', [0, 1, 2] + (
                [3] if X.tier == 'thorough' else [])))]
        else:
            d[k] = X.pick('other', ['x', None, ['y']])
    return d


def matches(value, d):
    if 'value' not in d and 'values' not in d:
        return True
    if 'value' in d and d['value'] == value:
        return True
    if 'values' in d:
        for v in d['values']:
            if v == value:
                return True
    return False


def match(X):
    kinds = X.pick('kinds', [('str', 'str', 'str'), ('str', 'int', 'int'), ('int', 'int', 'int'), ('str', 'int', 'str'),
                              ('str', 'list', 'str'), ('list', 'list', 'str'), ('list', 'str', 'list'), ('dict', 'dict', 'str'),
                              ('str', 'null', 'null'), ('bool', 'bool', 'str')])
    d = spec(X, kinds[1:])
    value = scalar(X, 'claim', kinds[0])
    s = d
    if X.bool('message'):
        s = Message()
        s.update(d)
    o = X.run(claims_match, value, s)
    X.note('match', o)
    X.check(o.ok, 'matching fails')
    if matches(value, d):
        X.reach('match')
        X.check(o.value is True, 'a claim that matches is said not to match')
    else:
        X.reach('no match')
        X.check(o.value is False, 'a claim that does not match is said to match')


def request(X):
    """specifications that arrived in a claims request"""
    d = spec(X, ('str', 'str'))
    value = X.str('claim')
    r = ClaimsRequest().from_dict({'id_token': {'acr': d or None}, 'userinfo': {'given_name': None}})
    X.check(claims_match(value, r['userinfo']['given_name']) is True, 'no specification does not match')
    X.check(claims_match(value, r['id_token']['acr']) is matches(value, d), 'the match is wrong')
    X.check(claims_match(value, None) is True, 'no specification does not match')
    X.reach('request')


CASES = {'match': match, 'request': request}
EXPECT_REACHED = ['match', 'no match', 'request']
