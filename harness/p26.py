"""Evidence and claims constructors."""
import json
from oidcmsg.message import Message
from oidcmsg.oidc import AddressClaim, OpenIDSchema
from oidcmsg.oidc.identity_assurance import (QES, ClaimsConstructor, Document, Evidence, IdDocument,
                                             IdentityAssuranceClaims, Issuer, UtilityBill, VerificationElement,
                                             VerifiedClaims, Verifier)

BOUNDS = 'evidence with an arbitrary or each known type or none, every presence pattern of the members of the ' \
         'three kinds, arbitrary contents, built, read from JSON or filled in, on its own and inside a verification ' \
         'element (as an object or a list of 1-2), verified once and again; the specific evidence types; claims ' \
         'constructors over six base types with every declared member and any other name and values of ' \
         'each JSON type, nested constructors of each type'
OUTSIDE = 'untyped evidence that has the required members of several kinds; claims that are lists; ' \
          'text that is no time stamp'
ISO = '2021-04-09T14:12Z'
NEED = {'id_document': ['method', 'verifier'], 'utility_bill': ['provider'],
        'qes': ['issuer', 'serial_number', 'created_at']}
CLS = {'id_document': IdDocument, 'utility_bill': UtilityBill, 'qes': QES}


def member(X, n, p):
    if n == 'verifier':
        return {'organization': X.str(p + 'org', minlen=1), 'txn': X.str(p + 'txn', minlen=1)}
    if n == 'provider':
        return {'name': X.str(p + 'pname', minlen=1)}
    if n == 'created_at':
        return ISO
    return X.str(p + n, minlen=1)


def parts(X, p, names):
    return {n: member(X, n, p) for n in names if X.bool(p + 'has_' + n)}


def read(X, cls, d):
    how = X.pick('how', ['constructor', 'json', 'setitem'])
    if how == 'constructor':
        return cls(**d)
    if how == 'json':
        return cls().from_json(json.dumps(d))
    m = cls()
    for k, v in d.items():
        m[k] = v
    return m


def complete(d, kind):
    for n in NEED[kind]:
        if n not in d:
            return False
    return True


def decide(d):
    """the kind it is, or None if it must be refused"""
    t = d.get('type')
    if t is not None:
        for k in NEED:
            if t == k:
                return k if complete(d, k) else None
        return None
    for k in NEED:
        if complete(d, k):
            return k
    return None


def judge(X, m, d, kind):
    o = X.run(m.verify)
    X.note('verify', o)
    if kind:
        X.reach('accepted')
        X.check(o.ok and o.value is True, 'correct evidence is refused')
        X.check(m['type'] == kind, 'evidence gets the wrong label')
        for k in d:
            X.check(k in m, 'verification removes a member')
        X.check(len(m) == len(d) + (0 if 'type' in d else 1), 'verification changes the members')
        X.check(m.verify() is True, 'verifying again has another outcome')
    else:
        X.reach('refused')
        X.check(not (o.ok and o.value), 'evidence that is not what it says is accepted')


def typed(X):
    t = X.pick('type', list(NEED) + ['other'])
    k = t if t != 'other' else X.pick('parts', list(NEED))
    d = parts(X, 'm_', NEED[k] + ['x_extra'])
    d['type'] = X.str('type_', minlen=1) if t == 'other' else t
    m = read(X, Evidence, d)
    judge(X, m, d, decide(d))


def guess(X):
    d = parts(X, 'm_', ['method', 'verifier', 'provider', 'issuer', 'serial_number', 'created_at'] if
              X.tier == 'thorough' else ['method', 'verifier', 'provider', 'issuer', 'created_at'])
    if X.tier != 'thorough' and 'issuer' in d:
        d['serial_number'] = X.str('serial', minlen=1)
    X.assume(len([k for k in NEED if complete(d, k)]) < 2)
    X.assume(len(d) > 0)
    judge(X, read(X, Evidence, d), d, decide(d))


def inside(X):
    """evidence in a verification element"""
    n = X.pick('n', [0, 1, 2])
    ds = []
    for i in range(max(1, n)):
        k = X.pick('kind%d' % i, list(NEED))
        d = parts(X, 'e%d_' % i, NEED[k])
        if X.bool('typed%d' % i):
            d['type'] = X.pick('type%d' % i, [k, 'other'])
        X.assume(len(d) > 0)
        ds.append(d)
    d = {'trust_framework': X.str('tf', minlen=1), 'evidence': ds if n else ds[0]}
    m = read(X, VerificationElement, d)
    X.check(m.verify() is True, 'a correct verification element is refused')
    ev = m['evidence']
    X.check(len(ev) == len(ds), 'evidence is lost')
    for e, d in zip(ev, ds):
        X.check(isinstance(e, Evidence), 'evidence is not of the evidence type')
        kind = decide(d)
        o = X.run(e.verify)
        if kind:
            X.reach('accepted inside')
            X.check(o.ok and o.value is True and e['type'] == kind, 'correct evidence is refused or mislabelled')
        else:
            X.reach('refused inside')
            X.check(not (o.ok and o.value), 'evidence that is not what it says is accepted')


def specific(X):
    k = X.pick('kind', list(NEED))
    d = parts(X, 'm_', NEED[k])
    if X.bool('typed'):
        d['type'] = X.str('type', minlen=1)
    m = read(X, CLS[k], d)
    o = X.run(m.verify)
    X.check((o.ok and o.value is True) == complete(d, k), 'a specific type of evidence is judged wrongly')


# ---- claims constructors
BASES = {'OpenIDSchema': (OpenIDSchema, 'oidcmsg.oidc.OpenIDSchema', {
             'given_name': str, 'email_verified': bool, 'updated_at': int, 'sub': str}),
         'IdentityAssuranceClaims': (IdentityAssuranceClaims, 'oidcmsg.oidc.identity_assurance.IdentityAssuranceClaims', {
             'nationalities': str, 'phone_number_verified': bool, 'title': str}),
         'VerificationElement': (VerificationElement, 'oidcmsg.oidc.identity_assurance.VerificationElement', {
             'trust_framework': str, 'time': str, 'verification_process': str}),
         'AddressClaim': (AddressClaim, 'oidcmsg.oidc.AddressClaim', {'country': str}),
         'Document': (Document, 'oidcmsg.oidc.identity_assurance.Document', {'type': str, 'issuer': Issuer}),
         'VerifiedClaims': (VerifiedClaims, 'oidcmsg.oidc.identity_assurance.VerifiedClaims', {
             'verification': VerificationElement, 'claims': IdentityAssuranceClaims})}
NESTED = {'verification': VerificationElement, 'claims': IdentityAssuranceClaims, 'issuer': Issuer,
          'verifier': Verifier, 'document': Document}


def put(c, k, v):
    c[k] = v


def constructor(X):
    name = X.pick('base', list(BASES))
    cls, path, members = BASES[name]
    how = X.pick('given', ['class', 'instance', 'name'])
    c = ClaimsConstructor({'class': cls, 'instance': cls(), 'name': path}[how])
    key = X.pick('key', list(members) + ['?'])
    if key == '?':
        key = X.str('key_', 4, 1, 'g-z')
        typ = None
        X.assume(key not in cls.c_param)
    else:
        typ = members[key]
    kind = X.pick('value', ['str', 'int', 'bool', 'null', 'object', 'nested'])
    if kind == 'nested':
        n = X.pick('nested', list(NESTED))
        v = ClaimsConstructor(NESTED[n])
        v['x_y'] = X.str('inner')
        plain = {'x_y': v.info['x_y']}
        good = typ is None or issubclass(NESTED[n], typ)
    else:
        v = {'str': lambda: X.str('v'), 'int': lambda: X.int('v_int'), 'bool': lambda: X.bool('v_bool'),
             'null': lambda: None, 'object': lambda: {'k': X.str('vk')}}[kind]()
        plain = v
        good = typ is None or v is None or (typ in (str, int, bool) and {str: 'str', int: 'int', bool: 'bool'}[typ] == kind)
    o = X.run(put, c, key, v)
    X.note('ok', o)
    if good:
        X.reach('taken')
        X.check(o.ok, 'a claim value of the right type is refused')
        X.check(c.to_dict() == {key: plain}, 'the claim is not what was given')
        X.check(json.loads(c.to_json()) == {key: plain}, 'the claim is not in the JSON text')
    else:
        X.reach('not taken')
        X.check(not o.ok, 'a claim value of the wrong type is accepted')
        X.check(c.to_dict() == {}, 'a refused claim value is kept')


CASES = {'typed': typed, 'guess': guess, 'inside': inside, 'specific': specific, 'constructor': constructor}
EXPECT_REACHED = ['accepted', 'refused', 'accepted inside', 'refused inside', 'taken', 'not taken']
