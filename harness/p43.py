"""Verifying again."""
import copy

from harness.common import IA, SPEC, cls_of, fill, params, required, short, wire
from harness.p15 import CONTEXT, NOW, OP, TYPES, jar

BOUNDS = 'every message type (73) with its required members and any one optional member, or one required member missing, ' \
         'arbitrary contents (enumerated members with any listed value), any pair of optional members for the ' \
         'types with rules of their own (thorough: for all types); the nine types that carry a token, with a good, a forged, a tampered or no ' \
         'token, a token with any one claim missing or null, the right or wrong expectations, and any one other ' \
         'member; evidence of the three kinds, named, unnamed, wrongly named, complete or not; identity assurance ' \
         'claims requests; verified two times with the same arguments (thorough: three times)'
OUTSIDE = 'time passing in between; other arguments the second time (P15)'
EXPECT_REACHED = ['replaced', 'accepted again', 'refused again', 'token accepted again', 'token refused again']
RULES = {'LogoutToken', 'IdToken', 'EndSessionRequest', 'EndSessionResponse', 'AuthorizationRequest',
         'OpenIDRequest', 'RegistrationRequest', 'RegistrationResponse', 'ProviderConfigurationResponse',
         'OpenIDSchema', 'AuthnToken', 'JsonWebToken', 'Evidence', 'BackChannelLogoutRequest'}


def again(X, m, args, name, kind):
    sent = copy.deepcopy(m._dict)
    a = X.run(lambda: m.verify(**args))
    held = copy.deepcopy(m._dict)
    for i in range(2 if X.tier == 'thorough' else 1):
        b = X.run(lambda: m.verify(**args))
        if a.ok and a.value and 'request' in sent and 'request' not in held:
            # the request object has been replaced by its content: there is nothing left to verify the slot by
            held.pop('__verified_request', None)
            X.check('__verified_request' not in m, '%s: a verified request object without a request object' % name)
            X.check(m._dict == held, '%s: verifying again changes the message' % name)
            X.reach('replaced')
        elif a.ok and a.value:
            X.check(b.ok, '%s: an accepted message is refused when verified again' % name)
            X.check(b.value == a.value, '%s: another answer when verified again' % name)
            X.check(m._dict == held, '%s: verifying again changes the message' % name)
            X.reach(kind + 'accepted again')
        else:
            X.check(not (b.ok and b.value), '%s: a refused message is accepted when verified again' % name)
            X.reach(kind + 'refused again')
    X.note('verify', a)
    # what it was verified as is still in it
    if a.ok and a.value and not kind:
        for k in sent:
            X.check(k in m._dict, '%s: verifying removes a member' % name)


def plain(key):
    name = key.split(':')[1]

    def run(X):
        X.clock(NOW * 1000000)
        req = [n for n in required(key) if n != '*']
        opt = [n for n in params(key) if n not in req and n != '*']
        drop = X.pick('drop', [None] + req[:1 if X.tier == 'quick' else None])
        names = [n for n in req if n != drop]
        one = X.pick('also', [None] + opt) if drop is None else None
        if one is not None:
            names.append(one)
            if name in RULES or X.tier == 'thorough':
                two = X.pick('and', [None] + opt[opt.index(one) + 1:])
                if two is not None:
                    names.append(two)
        over = {}
        for n, size in (('error_description', 2), ('birthdate', 4)):
            if n in names:
                over[n] = X.vec(n, size, size)
        m = cls_of(key)(set_defaults=False)
        if not X.run(m.from_dict, fill(X, key, names, **over)).ok:
            return
        again(X, m, {}, short(key), '')
    return run


def carried(key):
    name = key.split(':')[1]

    def run(X):
        X.clock(NOW * 1000000)
        claim, body, rest, _ = TYPES[key]
        body = dict(body)
        state = X.pick('token', ['good', 'forged', 'tampered', 'none'])
        k = X.pick('claim', [None] + sorted(body) + ['nonce']) if state == 'good' else None
        if k:
            if X.bool('null'):
                body[k] = None
            else:
                body.pop(k, None)
        d = dict(rest)
        if state != 'none':
            d[claim] = X.jwt('RS256', dict(body, extra=X.str('extra', minlen=1)),
                             'evil_rsa' if state == 'forged' else 'op_rsa', state == 'tampered')
        c = CONTEXT[name]
        also = X.pick('also', [None] + sorted(c)) if k is None else None
        if also:
            d[also] = c[also]
        args = {'keyjar': jar(X)}
        if X.bool('expectations'):
            args.update(iss=OP, client_id='client', nonce='n')
            if X.bool('wrong'):
                args[X.pick('which', ['iss', 'client_id', 'nonce'])] = 'other'
        m = cls_of(key)()
        if not X.run(m.from_dict, d).ok:
            return
        again(X, m, args, short(key), 'token ')
    return run


def evidence(X):
    X.clock(NOW * 1000000)
    kind = X.pick('kind', ['IdDocument', 'UtilityBill', 'QES'])
    inner = IA + kind
    names = X.pick('members', ['required', 'all'])
    ps = params(inner)
    d = {n: wire(X, ps[n], n) for n in (required(inner) if names == 'required' else ps)}
    d.pop('type', None)
    t = X.pick('type', ['named', 'none', 'another', 'unknown'])
    if t != 'none':
        d['type'] = {'IdDocument': 'id_document', 'UtilityBill': 'utility_bill', 'QES': 'qes'}[
            kind if t == 'named' else 'QES' if kind != 'QES' else 'UtilityBill'] if t != 'unknown' else 'x'
    if X.bool('one missing'):
        d.pop(X.pick('missing', sorted(d)))
    m = cls_of(IA + 'Evidence')()
    if not X.run(m.from_dict, d).ok:
        return
    again(X, m, {}, 'identity_assurance.Evidence', '')


def ida(X):
    X.clock(NOW * 1000000)
    v = X.pick('request', [None, {'essential': True}, {'value': 'x'}, {'values': ['x', 'y']}, 'text', {'essential': 'x'},
                           {'value': ['x']}, {}])
    where = X.pick('where', ['trust_framework', 'given_name', 'address'])
    if where == 'address':
        vc = {'claims': {'address': {'country': v}}}
    elif where == 'given_name':
        vc = {'verification': {'trust_framework': None}, 'claims': {'given_name': v, 'x' + X.vec('other', 2, 0, 'a-z'): None}}
    else:
        vc = {'verification': {'trust_framework': v, 'evidence': [{'type': {'value': 'id_document'}}]}}
    m = cls_of(IA + 'IDAClaimsRequest')()
    d = {'verified_claims': vc}
    if X.bool('userinfo'):
        d['userinfo'] = {'given_name': v}
    if not X.run(m.from_dict, d).ok:
        return
    again(X, m, {}, 'identity_assurance.IDAClaimsRequest', '')


CASES = {short(k): plain(k) for k in SPEC}
CASES.update({short(k) + ' with a token': carried(k) for k in TYPES})
CASES.update({'evidence': evidence, 'verified claims request': ida})
