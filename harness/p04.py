"""Dictionary and JSON round trips."""
import copy
import json
from harness.common import IA, SPEC, cls_of, params, required, short, wire

BOUNDS = 'every message type; the required members, all members, or any single optional member set ' \
         'to arbitrary values (strings of any content and length, integers, both booleans, lists of ' \
         'up to 2, objects, nested messages given as objects or as instances); with an unknown extra ' \
         'member (string, list, object, number or nested list), a language-tagged member with an ' \
         'arbitrary tag, and null members; messages and lists of up to 3 messages (empty ones too) as undeclared members'
OUTSIDE = 'time stamps are one fixed time (their conversion is decided by P26/P27); numbers that are ' \
          'not integers'


def check(X, key, cls, m, name, via=None):
    before = copy.deepcopy(m._dict)
    if via is None:
        via = X.pick('via', ['dict', 'json'])
    if via == 'dict':
        w = X.run(m.to_dict)
    else:
        w = X.run(m.to_json)
    X.check(w.ok, '%s: a message cannot be turned into %s' % (name, via))
    if via == 'dict':
        X.note('wire', w.value)
        wcopy = copy.deepcopy(w.value)
        back = X.run(cls(set_defaults=False).from_dict, w.value)
        X.check(w.value == wcopy, '%s: reading a dictionary changes it' % name)
    else:
        back = X.run(cls(set_defaults=False).from_json, w.value)
    X.check(back.ok, '%s: the %s form of a message is not read back' % (name, via))
    X.check(back.value._dict is not m._dict and m._dict == before,
            '%s: the %s round trip changes the original' % (name, via))
    X.check(back.value == m, '%s: the %s round trip changes the message' % (name, via))
    # and once more
    again = X.run(back.value.to_dict if via == 'dict' else back.value.to_json)
    if via == 'dict':
        X.check(again.ok and again.value == wcopy, '%s: a second dictionary form differs' % name)
    X.reach('round trip')


def make(key):
    cls = cls_of(key)
    ps = params(key)
    req = required(key)
    opt = [n for n in ps if n not in req]

    def run(X):
        X.clock(1700000000 * 1000000)
        which = X.pick('members', ['required', 'all', 'all, lists of 2', 'null', 'tagged', 'extra'] + opt)
        d = {n: wire(X, ps[n], n) for n in req}
        if which.startswith('all'):
            for n in opt:
                d[n] = wire(X, ps[n], n, many=True)
            if which.endswith('2'):
                for n in ps:
                    if ps[n][0].startswith('['):
                        d[n] = wire(X, ps[n], n + '2', 2)
        elif which == 'null':
            for n in opt:
                if ps[n][0] in ('str', 'int', 'bool', 'dict') and not ps[n][3].startswith('time') \
                        and ps[n][3] != 'json_deserializer':
                    d[n] = None
        elif which == 'tagged':
            for n in ps:
                d[n + '#fr'] = wire(X, ps[n], n + '_fr', many=True)
        elif which == 'extra':
            k = X.pick('extra', ['str', 'int', 'list', 'object', 'null', 'bool'])
            d['no_such_member'] = {
                'str': lambda: X.str('x', minlen=1), 'int': lambda: X.int('xi'),
                'list': lambda: [X.str('x', minlen=1), {'a': X.str('y')}, [X.int('xi')]],
                'object': lambda: {'a': {'b': [X.str('x')]}, 'c': None}, 'null': lambda: None,
                'bool': lambda: X.bool('xb')}[k]()
        elif which not in ('required',):
            d[which] = wire(X, ps[which], which)
        one = which in opt
        o = X.run(lambda: cls(set_defaults=X.bool('defaults') if which == 'required' else True, **d))
        X.check(o.ok, '%s: a message cannot be built from well-typed values' % short(key))
        for n in d:
            X.check(n in o.value, '%s: %s is lost' % (short(key), n))
        check(X, key, cls, o.value, short(key), 'json' if one and X.tier == 'quick' else None)

    return run


def instances(X):
    """nested members given as message instances"""
    key, member, inner = X.pick('which', [
        (IA + 'VerifiedClaims', 'claims', IA + 'IdentityAssuranceClaims'),
        (IA + 'VerifiedClaims', 'verification', IA + 'VerificationElement'),
        (IA + 'IdDocument', 'verifier', IA + 'Verifier'),
        (IA + 'IdDocument', 'document', IA + 'Document'),
        (IA + 'Document', 'issuer', IA + 'Issuer'),
        (IA + 'UtilityBill', 'provider', IA + 'Provider'),
        (IA + 'VerificationElement', 'evidence', IA + 'Evidence'),
        ('oidcmsg.oidc:JRD', 'links', 'oidcmsg.oidc:Link'),
        ('oidcmsg.oidc:OpenIDSchema', 'address', 'oidcmsg.oidc:AddressClaim'),
        ('oidcmsg.oidc:AuthorizationRequest', 'claims', 'oidcmsg.oidc:ClaimsRequest'),
        ('oidcmsg.oidc:ClaimsRequest', 'userinfo', 'oidcmsg.oidc:Claims'),
    ])
    X.clock(1700000000 * 1000000)
    ps = params(inner)
    names = X.pick('fill', ['required', 'all'])
    d = {n: wire(X, ps[n], n) for n in (required(inner) if names == 'required' else ps)}
    if inner.endswith(':Claims'):
        d = {'acr': {'value': X.str('v', minlen=1)}}
    v = cls_of(inner)(**d)
    outer = params(key)
    kw = {n: wire(X, outer[n], 'o_' + n) for n in required(key) if n != member}
    if outer[member][0].startswith('['):
        if X.bool('in_list'):
            if inner.endswith('Evidence'):   # a list of evidence instances is not taken (raises)
                v = [d]
            elif X.bool('two'):
                v = [v, cls_of(inner)()]
            else:
                v = [v]
    kw[member] = v
    m = cls_of(key)(**kw)
    X.check(member in m, '%s: a nested %s is lost' % (short(key), short(inner)))
    check(X, key, cls_of(key), m, short(key) + ' with a nested ' + short(inner))


def tag(X):
    """arbitrary language tags and extra names"""
    cls = cls_of('oidcmsg.oidc:RegistrationRequest')
    t = X.str('tag', 5, 1)
    m = cls(redirect_uris=[X.str('r', minlen=1, exclude=' ')],
            **{'client_name#' + t: X.str('n', minlen=1), 'x_' + X.str('e', 4, 0, 'a-z_'): X.str('v', minlen=1)})
    check(X, None, cls, m, 'oidc.RegistrationRequest')


def jwks_text(X):
    """an object member that arrived as JSON text"""
    cls = cls_of('oidcmsg.oidc:RegistrationRequest')
    m = cls().from_urlencoded('redirect_uris=https%3A%2F%2Fa&jwks=%7B%22keys%22%3A%5B%5D%7D')
    check(X, None, cls, m, 'oidc.RegistrationRequest from a form')


def undeclared(X):
    """message instances as undeclared members: they become objects"""
    cls = cls_of(X.pick('cls', ['oidcmsg.oauth2:AccessTokenRequest', 'oidcmsg.oidc:JRD', 'oidcmsg.message:Message']))
    sub = cls_of(X.pick('sub', ['oidcmsg.oidc:Link', 'oidcmsg.message:Message', 'oidcmsg.oidc:OpenIDSchema']))
    parts = [{}, {'rel': X.str('a', minlen=1)}, {'rel': X.str('b', minlen=1), 'more': {'x': [X.str('c')]}}]
    order = X.pick('order', [[0], [1], [0, 1], [1, 0], [1, 2, 0], [2, 0, 1], []])
    deep = X.str('d')
    d = {'one': parts[2], 'many': [parts[i] for i in order], 'deep': {'x': deep}}
    m = cls(one=sub(**parts[2]), many=[sub(**parts[i]) for i in order], deep={'x': deep}, set_defaults=False)
    o = X.run(m.to_dict)
    X.check(o.ok and o.value == d, '%s: undeclared message members are not in the dictionary form' % cls.__name__)
    back = X.run(cls(set_defaults=False).from_dict, o.value)
    again = X.run(back.value.to_dict)
    X.check(again.ok and again.value == d, '%s: the dictionary form of undeclared messages is not stable' % cls.__name__)
    o = X.run(m.to_json)
    X.check(o.ok and json.loads(o.value) == d, '%s: undeclared message members are not in the JSON form' % cls.__name__)
    back = X.run(cls(set_defaults=False).from_json, o.value)
    again = X.run(back.value.to_dict)
    X.check(again.ok and again.value == d, '%s: the JSON form of undeclared messages is not stable' % cls.__name__)
    X.reach('undeclared')


CASES = {short(k): make(k) for k in SPEC}
CASES.update({'undeclared instances': undeclared, 'nested instances': instances, 'names': tag, 'object as text': jwks_text})
EXPECT_REACHED = ['round trip', 'undeclared']
