"""Definite answers."""
import json

from harness.common import SPEC, cls_of, fill, params, required, short, value
from harness.p15 import CONTEXT, NOW, TYPES, jar
from oidcmsg.message import Message

BOUNDS = 'verification: every message type (73), complete, with one required member missing, and with any one ' \
         'of its optional members (two for the types with rules of their own: all pairs), arbitrary contents, each ' \
         'also null. Reading: every text that cannot be the ' \
         'start of a JSON document, every JSON document that is not an object (null, true, false, any number, any ' \
         'text, lists), members of object type given such text, form data without a single pair, unknown method ' \
         'names, tokens that are tampered with or signed by a stranger'
OUTSIDE = 'texts that start like a JSON document but are not one (see P03/P04 for documents); three or more ' \
          'optional members at once'
EXPECT_REACHED = ['accepted', 'refused', 'unreadable', 'not an object', 'bad member', 'no pair', 'no method',
                  'bad token']
RULES = {'LogoutToken', 'IdToken', 'EndSessionRequest', 'EndSessionResponse', 'AuthorizationRequest',
         'OpenIDRequest', 'RegistrationRequest', 'RegistrationResponse', 'ProviderConfigurationResponse',
         'OpenIDSchema', 'AuthnToken', 'JsonWebToken', 'Evidence', 'BackChannelLogoutRequest'}
READ = ['oidcmsg.oauth2:AuthorizationRequest', 'oidcmsg.oidc:ClaimsRequest', 'oidcmsg.oidc:IdToken',
        'oidcmsg.oidc.identity_assurance:Evidence', 'oidcmsg.oidc:OpenIDSchema']
SKIP = ('*',)


def definite(key):
    name = key.split(':')[1]

    def run(X):
        X.clock(1700000000 * 1000000)
        req = [n for n in required(key) if n not in SKIP]
        opt = [n for n in params(key) if n not in req and n not in SKIP]
        drop = X.pick('drop', [None] + req)
        names = [n for n in req if n != drop]
        one = X.pick('also', [None] + opt) if drop is None else None
        if one is not None:
            names.append(one)
            if drop is None and name in RULES and X.tier == 'thorough':
                two = X.pick('and', [None] + opt[opt.index(one) + 1:])
                if two is not None:
                    names.append(two)
        m = cls_of(key)(set_defaults=False)
        over = {}
        if 'error_description' in names:
            over['error_description'] = X.vec('description', 2, 1)
        if 'birthdate' in names:
            over['birthdate'] = X.vec('birthdate', 4, 4)
        o = X.run(m.from_dict, fill(X, key, names, **over))
        if not o.ok:
            X.reach('refused')
            return
        if drop is None and names and X.bool('null') and not X.run(m.__setitem__, names[-1], None).ok:
            X.reach('refused')
            return
        r = X.run(m.verify)
        X.note('verify', r)
        if r.ok:
            X.check(r.value is True or r.value is False, 'verifying a %s gives neither true nor false' % short(key))
        X.reach('accepted' if r.ok and r.value else 'refused')
    return run


def junk(X, name='text', minlen=0):
    t = X.str(name, minlen=minlen)
    for c in '{["-0123456789tfnNI \t\n\r':
        X.assume(not t.startswith(c))
    return t


def text(X):
    cls = cls_of(X.pick('type', READ))
    how = X.pick('how', ['from_json', 'deserialize', 'from_jwt'])
    m = cls()
    if how == 'from_json':
        o = X.run(m.from_json, junk(X))
    elif how == 'deserialize':
        o = X.run(m.deserialize, junk(X), 'json')
    else:
        o = X.run(m.from_jwt, X.nontoken('text'), X.keyjar([('', ['me_rsa'])]))
    X.note('read', o)
    X.check(not o.ok, 'a text that is not a document is read without an error')
    X.reach('unreadable')


def no_object(X):
    cls = cls_of(X.pick('type', READ))
    k = X.pick('document', ['null', 'bool', 'number', 'text', '[]', '[text]', '[pair]'])
    if k == 'null':
        d = None
    elif k == 'bool':
        d = X.bool('b')
    elif k == 'number':
        d = X.int('n', -2 ** 60, 2 ** 60)
    elif k == 'text':
        d = X.str('t')
    elif k == '[]':
        d = []
    elif k == '[text]':
        d = [X.str('t')]
    else:
        d = [[X.str('t'), X.str('u')]]
    m = cls()
    if X.bool('as text'):
        o = X.run(m.from_json, json.dumps(d))
    else:
        o = X.run(m.deserialize, json.dumps(d), 'json')
    X.note('read', o)
    X.check(not o.ok, 'a document that is not an object is read without an error')
    X.reach('not an object')


MEMBERS = [('oidcmsg.oidc:AuthorizationRequest', 'claims'), ('oidcmsg.oidc:AuthorizationRequest', 'registration'),
           ('oidcmsg.oidc:OpenIDSchema', 'address'), ('oidcmsg.oidc:ClaimsRequest', 'userinfo'),
           ('oidcmsg.oidc.identity_assurance:IdDocument', 'verifier'),
           ('oidcmsg.oidc.identity_assurance:IdDocument', 'document'),
           ('oidcmsg.oidc.session:LogoutToken', 'events')]


def member(X):
    key, n = MEMBERS[X.pick('member', list(range(len(MEMBERS))))]
    via = X.pick('via', ['json', 'dict', 'constructor', 'item'])
    bad = junk(X, minlen=1) if X.bool('is text') else X.int('number', 1, 2 ** 40)
    cls = cls_of(key)
    m = cls()
    if via == 'json':
        o = X.run(m.from_json, json.dumps({n: bad}))
    elif via == 'dict':
        o = X.run(m.from_dict, {n: bad})
    elif via == 'constructor':
        o = X.run(cls, **{n: bad})
    else:
        o = X.run(m.__setitem__, n, bad)
    X.note('read', o)
    if o.ok and via != 'constructor':
        X.check(n not in m or isinstance(m[n], (dict, Message)),
                'a member that cannot be read is stored without an error')
    X.check(not o.ok, 'a member that cannot be read is not an error')
    X.reach('bad member')


def no_pair(X):
    cls = cls_of(X.pick('type', READ))
    t = X.str('t', 12, 1, 'a-z.{}')
    m = cls()
    o = X.run(m.from_urlencoded, t) if X.bool('direct') else X.run(m.deserialize, t)
    X.note('read', o)
    X.check(not o.ok, 'form data without a pair is read without an error')
    X.reach('no pair')


def method(X):
    name = X.str('method', 12, 1, 'a-z_')
    for n in ('urlencoded', 'json', 'dict', 'jwt', 'jwe'):
        if name == n:
            return
    o = X.run(Message().deserialize, '{}', name)
    X.note('read', o)
    X.check(not o.ok, 'an unknown serialisation is not an error')
    X.reach('no method')


def token(X):
    cls = cls_of(X.pick('type', READ))
    t = X.jwt('RS256', {'iss': 'https://op.example', 'sub': X.str('sub', minlen=1)},
              X.pick('key', ['op_rsa', 'evil_rsa']), tampered=True)
    o = X.run(cls().from_jwt, t, X.keyjar([('https://op.example', ['op_rsa'])]))
    X.note('read', o)
    X.check(not o.ok, 'a token with a wrong signature is read without an error')
    X.reach('bad token')


def carried(X):
    """messages that carry a token"""
    X.clock(NOW * 1000000)
    key = X.pick('type', list(TYPES))
    claim, body, rest, _ = TYPES[key]
    body = dict(body)
    k = X.pick('claim', [None] + sorted(body) + ['nonce', 'auth_time', 'given_name', 'error'])
    what = X.pick('is', ['absent', 'null', 'false'] + (['empty'] if k != 'iss' else []) if k else ['there'])
    if what == 'absent':
        body.pop(k, None)
    elif k:
        body[k] = {'null': None, 'empty': [], 'false': False}[what]
    tok = X.jwt('RS256', body, 'op_rsa', X.bool('tampered'))
    d = dict(rest)
    d[claim] = tok
    c = CONTEXT[key.split(':')[1]]
    also = X.pick('also', [None] + sorted(c) if k is None or what == 'null' else [None])
    if also:
        d[also] = c[also]
    m = cls_of(key)()
    o = X.run(m.from_dict, d)
    if not o.ok:
        X.reach('refused')
        return
    args = {'keyjar': jar(X)}
    if what in ('there', 'null') and X.bool('expectations'):
        args.update(iss=body.get('iss'), client_id='client', nonce='n')
    r = X.run(m.verify, **args)
    X.note('verify', r)
    if r.ok:
        X.check(r.value is True or r.value is False,
                'verifying a %s with a token gives neither true nor false' % short(key))
    X.reach('accepted' if r.ok and r.value else 'refused')


CASES = {'verify ' + short(k): definite(k) for k in SPEC}
CASES.update({'text': text, 'no object': no_object, 'member': member, 'form': no_pair, 'method': method,
              'token': token, 'carried': carried})
