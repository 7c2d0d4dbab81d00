"""Message factories."""
from harness.common import SPEC, cls_of, params, value
from oidcmsg import oauth2
from oidcmsg import oidc
from oidcmsg.message import Message

BOUNDS = 'every type name of the two modules (47), and every other text as a name (no length bound); ' \
         'any one declared text member, one declared list member and one of five undeclared members, each given or ' \
         'not, with arbitrary values'
OUTSIDE = 'members that a type refuses to be constructed with; the names Message and ResponseMessage of the OpenID ' \
          'module, where either module\'s type of that name will do'
EXPECT_REACHED = ['built', 'fallback', 'unknown', 'filled', 'refused']
BASE = {k.split(':')[1]: k for k in SPEC if k.startswith('oidcmsg.oauth2:')}
OWN = {k.split(':')[1]: k for k in SPEC if k.startswith('oidcmsg.oidc:')}


def simple(key, typ):
    al = SPEC[key]['allowed']
    return [n for n, s in params(key).items() if s[0] == typ and n not in al and n not in (
        'request', 'id_token', 'id_token_hint') and not s[3].startswith(('time', 'date'))]


OTHERS = ['zz_other', 'state', 'error', 'iss', 'client_name#ja']


def built(fac, table, label):
    def run(X):
        name = X.pick('type', sorted(table))
        key = table[name]
        members = {}
        for typ, tag in (('str', 's'), ('[str]', 'l')):
            names = simple(key, typ)
            n = X.pick('with ' + tag, [None] + (names if tag == 's' else names[:1]))
            if n:
                members[n] = value(X, params(key)[n], tag)
        n = X.pick('other', [None] + [o for o in OTHERS if o.split('#')[0] not in params(key)])
        if n:
            members[n] = X.str('other value', minlen=1)
        r = X.run(fac, name, **members)
        X.check(r.ok, 'a known message type is not built')
        m = r.value
        X.check(m is not None, 'a known message type is not built')
        X.check(type(m) is cls_of(key), 'another message type is built than the one asked for')
        X.reach(label)
        for n in members:
            X.reach('filled')
            X.check(n in m, 'a member given to the factory is not in the message')
            X.check(m[n] == members[n], 'a member given to the factory has another value')
        plain = cls_of(key)()
        X.note('members', sorted(m.keys()))
        X.check(sorted(m.keys()) == sorted(set(plain.keys()) | set(members)),
                'the message has other members than given and default ones')
    return run


def other(fac, known):
    def run(X):
        name = X.str('name')
        hit = None
        for k in sorted(known):
            if name == k:
                hit = k
                break
        r = X.run(fac, name)
        X.check(r.ok, 'an unknown message type is an error')
        m = r.value
        if hit is None:
            X.check(m is None, 'a message is built for an unknown type name')
            X.reach('unknown')
        else:
            X.check(type(m).__name__ == hit, 'another message type is built than the one asked for')
            X.check(isinstance(m, Message), 'what is built is not a message')
            X.reach('built')
    return run


def twice(X):
    """what one message holds is not seen in the next"""
    for fac, tab in ((oauth2.factory, BASE), (oidc.factory, OWN)):
        name = X.pick('type' + fac.__module__, sorted(tab))
        a = X.run(fac, name, zz_other=X.str('v' + fac.__module__, minlen=1))
        b = X.run(fac, name)
        X.check(a.ok and b.ok, 'a known message type is not built')
        X.check(a.value is not b.value, 'the same instance is handed out twice')
        X.check('zz_other' not in b.value, 'members of an earlier message are in a later one')
        X.reach('built')


def refused(X):
    """content that the type refuses is an error, not another type and not nothing"""
    v = X.str('v', minlen=1)
    X.assume(v != 'openid')
    r = X.run(oidc.factory, 'TokenErrorResponse', error={'k': v})
    X.note('wrong', r)
    X.check(not r.ok, 'a member of the wrong type is accepted')
    r = X.run(oauth2.factory, 'TokenErrorResponse', error={'k': v})
    X.check(not r.ok, 'a member of the wrong type is accepted')
    X.reach('refused')


def only_base(X):
    """the OAuth2 factory knows nothing of the OpenID types"""
    name = X.pick('type', sorted(set(OWN) - set(BASE)))
    r = X.run(oauth2.factory, name)
    X.check(r.ok and r.value is None, 'the OAuth2 factory builds an OpenID type')
    X.reach('unknown')


FALL = {k: v for k, v in BASE.items() if k not in OWN}
KNOWN_O2 = set(BASE) | {'Message'}
KNOWN_OI = set(BASE) | set(OWN) | {'Message'}
CASES = {'oauth2 type': built(oauth2.factory, BASE, 'built'), 'oidc type': built(oidc.factory, OWN, 'built'),
         'oidc fallback': built(oidc.factory, FALL, 'fallback'), 'oauth2 name': other(oauth2.factory, KNOWN_O2),
         'oidc name': other(oidc.factory, KNOWN_OI), 'twice': twice, 'refused': refused,
         'oauth2 only': only_base}
