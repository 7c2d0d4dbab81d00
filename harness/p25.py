"""Requests for verified claims."""
import json
import re
from oidcmsg.oidc.identity_assurance import IDAClaimsRequest, VerifiedClaimsRequest

BOUNDS = 'one arbitrary constraint at any of ten positions (claims of each type, in the ' \
         'verification element, in the first or second evidence) next to unconstrained claims and one correct ' \
         'constraint; one of essential / value / values (0-2 entries) / purpose with arbitrary ' \
         'JSON values, alone, next to another member or next to all the others with correct ' \
         'values; purposes (at three positions) of up to 4 arbitrary characters and of 297-303 with arbitrary ' \
         'ends; by IDAClaimsRequest and VerifiedClaimsRequest, built or read from JSON'
OUTSIDE = 'claims and evidence members that the message types do not declare (such as those inside an address); place_of_birth'
POS = {'given_name': str, 'email_verified': bool, 'updated_at': int, 'nationalities': str,
       'trust_framework': str, 'time': str, 'verification_process': str, 'evidence0': str, 'evidence1': str,
       'birth_family_name': str}
PURPOSE = r'[\x20\x21\x23-\x5b\x5d-\x7e]*'
KINDS = ['str', 'int', 'bool', 'list', 'object', 'null']


def jval(X, name, kinds=KINDS):
    k = X.pick(name + '_kind', kinds)
    return {'str': lambda: X.str(name), 'int': lambda: X.int(name, -5, 2 ** 40), 'bool': lambda: X.bool(name),
            'list': lambda: [X.str(name)], 'object': lambda: {'k': X.str(name)}, 'null': lambda: None}[k](), k


def fits(kind, typ):
    return {str: 'str', int: 'int', bool: 'bool'}[typ] == kind


def constraint(X, typ, what):
    """(constraint, is it correct)"""
    d, good = {}, True
    if what == 'essential':
        d['essential'], k = jval(X, 'essential')
        good = k in ('bool', 'null')
    elif what == 'value':
        d['value'], k = jval(X, 'value')
        good = k == 'null' or fits(k, typ)
    elif what == 'values':
        n = X.pick('n_values', [0, 1, 2, 'no list'])
        if n == 'no list':
            d['values'], k = jval(X, 'values', ['str', 'int', 'bool', 'object', 'null'])
            good = k == 'null'
        else:
            d['values'] = []
            for i in range(n):
                v, k = jval(X, 'values%d' % i, KINDS[:-1])
                d['values'].append(v)
                good = good and fits(k, typ)
    elif what == 'short purpose':
        d['purpose'] = X.str('purpose', 4)
        good = re.fullmatch(PURPOSE, d['purpose']) is not None and len(d['purpose']) >= 3
    elif what == 'long purpose':
        a, b = X.str('head', 1), X.str('tail', 2)
        k = X.pick('middle', [297, 299, 300])
        d['purpose'] = a + 'p' * k + b
        good = re.fullmatch(PURPOSE, a) is not None and re.fullmatch(PURPOSE, b) is not None and \
            len(a) + k + len(b) <= 300
    elif what == 'purpose of another type':
        d['purpose'], k = jval(X, 'purpose', KINDS[1:])
        good = k == 'null'
    more = X.pick('next_to', ['nothing', 'another member', 'the others'])
    if more == 'nothing':
        return d, good
    if more == 'another member':
        d['max_age'] = X.int('max_age', 0, 10 ** 9)
    elif what in ('essential', 'values'):
        # correct members before and after the one in question
        v = {str: lambda: X.str('correct'), int: lambda: X.int('correct', -5, 2 ** 40),
             bool: lambda: X.bool('correct')}[typ]()
        d = {'value': v, **d, 'purpose': 'to see'}
    elif what == 'value':
        d = {'essential': True, **d, 'values': []}
    else:
        d = {'essential': X.bool('correct_essential'), **d, 'values': None}
    return d, good


WHATS = ['essential', 'value', 'values', 'short purpose', 'long purpose', 'purpose of another type', 'nothing']


def place(pos, c):
    claims, ver = {'family_name': {'essential': True, 'purpose': 'why not'}, 'birthdate': None}, {'time': None}
    if pos in ('trust_framework', 'time', 'verification_process'):
        ver[pos] = c
    elif pos == 'evidence0':
        ver['evidence'] = [{'type': c, 'method': None}]
    elif pos == 'evidence1':
        ver['evidence'] = [{'type': {'value': 'id_document'}}, {'type': c}]
    else:
        claims[pos] = c
    return {'claims': claims, 'verification': ver}


def make(cls):
    def run(X):
        some = ['given_name', 'evidence1', 'updated_at']
        pos = X.pick('position', list(POS) if cls is IDAClaimsRequest or X.tier == 'thorough' else some)
        what = X.pick('what', WHATS if pos in some else WHATS[:3] + WHATS[5:])
        c, good = (None, True) if what == 'nothing' and X.bool('no constraint') else constraint(X, POS[pos], what)
        vc = place(pos, c)
        js = X.bool('json')
        if cls is IDAClaimsRequest:
            d = {'verified_claims': vc}
        else:
            d = vc
        o = X.run(build, cls, d, js)
        X.note('ok', o.ok)
        if good:
            X.reach('accepted')
            X.check(o.ok, 'a correct request for verified claims is refused')
            if cls is IDAClaimsRequest:
                X.check(isinstance(o.value['verified_claims'], VerifiedClaimsRequest),
                        'the verified claims are not of their type')
        else:
            X.reach('refused')
            X.check(not o.ok, 'a request with an illegal constraint is accepted')

    return run


def build(cls, d, js):
    m = cls().from_json(json.dumps(d)) if js else cls(**d)
    if m.verify() is not True:
        raise ValueError('not True')
    return m


def nothing(X):
    """nothing is asked for, or nothing in particular"""
    vc = {}
    for k in ('claims', 'verification'):
        v = X.pick(k, ['absent', 'null', 'some'])
        if v == 'null':
            vc[k] = None
        elif v == 'some':
            vc[k] = {'given_name': None, X.str('some_name', 4, 1, 'a-z'): None} if k == 'claims' else {
                'time': None, 'evidence': None, 'date': {'max_age': X.int('age', 0, 10 ** 9)}}
    o = X.run(build, IDAClaimsRequest, {'verified_claims': vc}, X.bool('json'))
    X.check(o.ok, 'a request without constraints is refused')
    X.reach('nothing')


CASES = {'IDAClaimsRequest': make(IDAClaimsRequest), 'VerifiedClaimsRequest': make(VerifiedClaimsRequest),
         'nothing': nothing}
EXPECT_REACHED = ['accepted', 'refused', 'nothing']
