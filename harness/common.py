"""Shared by the harnesses: the message classes and value builders per declared type."""
import importlib

from harness.spec_table import SPEC
from oidcmsg.message import Message

MODULES = ['oidcmsg.oauth2', 'oidcmsg.oauth2.device_authorization', 'oidcmsg.oidc',
           'oidcmsg.oidc.session', 'oidcmsg.oidc.identity_assurance']
for _m in MODULES:
    importlib.import_module(_m)


def cls_of(key):
    mod, name = key.split(':')
    return getattr(importlib.import_module(mod), name)


def short(key):
    mod, name = key.split(':')
    return mod.split('.')[-1] + '.' + name


def params(key):
    return SPEC[key]['params']


def required(key):
    return [p for p, s in params(key).items() if s[1]]


IA = 'oidcmsg.oidc.identity_assurance:'
# members of nested message types that are used to fill in nested members
NESTED = {'Issuer': ['name', 'country'], 'Verifier': ['organization', 'txn'],
          'Provider': ['name'], 'IdentityAssuranceClaims': ['sub'],
          'VerificationElement': ['trust_framework']}


def value(X, spec, tag, listlen=1, allowed=None):
    """a well-typed, non-empty value for a member; content symbolic"""
    t = spec[0]
    if allowed is not None:
        v = X.pick(tag + '_allowed', list(allowed))
        return [v] if t == '[str]' else v
    if spec[3].startswith('time') or spec[3].startswith('date'):
        return ISO
    if t == 'str' and tag.endswith('issuer') and not spec[2]:
        return X.url('https', X.str(tag + '_host', 8, 1, 'a-z.'), '/' + X.str(tag + '_p', 4, 0, 'a-z'))
    if t == 'str':
        return X.str(tag, minlen=1)
    if t == 'int':
        return X.int(tag, 1, 2 ** 40)
    if t == 'bool':
        return X.bool(tag)
    if t == '[str]':
        return [X.str('%s_%d' % (tag, i), minlen=1, exclude=' ' if spec[2].startswith('sp') else '')
                for i in range(listlen)]
    if t == 'dict':
        return {'k': X.str(tag + '_k', minlen=1)}
    if t == 'Message':
        return Message(k=X.str(tag + '_k', minlen=1))
    if t == '[Link]':
        return [cls_of('oidcmsg.oidc:Link')(rel=X.str(tag + '_rel', minlen=1))]
    if t == '[Evidence]':
        return [cls_of(IA + 'Evidence')(type='qes')]
    if t == 'Document':
        return cls_of(IA + 'Document')(
            type=X.str(tag + '_type', minlen=1), number=X.str(tag + '_num', minlen=1),
            issuer=cls_of(IA + 'Issuer')(name='n', country='c'), date_of_issuance='2020-01-01',
            date_of_expiry='2021-01-01')
    return cls_of(IA + t)(**{m: X.str('%s_%s' % (tag, m), minlen=1) for m in NESTED[t]})


def fill(X, key, names, prefix='v_', **over):
    sp = params(key)
    al = SPEC[key]['allowed']
    out = {}
    for n in names:
        if n in over:
            out[n] = over[n]
        else:
            out[n] = value(X, sp[n], prefix + n, allowed=al.get(n))
    return out


# ---- wire (JSON-like) values: what a peer would send
ISO = '2021-04-09T14:12Z'
NAMES = {'Issuer': {'name', 'country'}, 'Verifier': {'organization', 'txn'}}


def wire(X, spec, tag, listlen=1, maxlen=None, many=False):
    t, ser, deser = spec[0], spec[2], spec[3]

    def s(n):
        return X.str('%s_%s' % (tag, n), maxlen, 1)
    if deser.startswith('time') or deser.startswith('date'):
        return ISO
    if t == 'str':
        return s('s')
    if t == 'int':
        return X.int(tag, 1, 2 ** 40)
    if t == 'bool':
        return True if many else X.bool(tag)
    if t == '[str]':
        return [X.str('%s_%d' % (tag, i), maxlen, 1, exclude=' ') for i in range(listlen)]
    if t == 'dict':
        return {'k': s('k'), 'l': [s('l')]}
    if t == '[Link]':
        return [{'rel': s('rel'), 'href': s('href'), 'titles': {'en': s('t')}}]
    if t == '[Evidence]':
        return [{'type': 'qes', 'issuer': s('i'), 'serial_number': s('n'), 'created_at': ISO},
                {'type': 'id_document', 'method': s('m'), 'verifier': {'organization': s('o'),
                                                                      'txn': s('x')}}][:1 + listlen]
    if t == 'Document':
        return {'type': s('type'), 'number': s('n'), 'issuer': {'name': s('in'), 'country': s('c')},
                'date_of_issuance': ISO, 'date_of_expiry': ISO}
    if t == 'Issuer':
        return {'name': s('n'), 'country': s('c')}
    if t == 'Verifier':
        return {'organization': s('o'), 'txn': s('x')}
    if t == 'Provider':
        return {'name': s('n'), 'street_address': s('a')}
    if t == 'VerificationElement':
        return {'trust_framework': s('t'), 'time': ISO,
                'evidence': wire(X, ('[Evidence]', 0, '', ''), tag + 'e')}
    if t == 'IdentityAssuranceClaims':
        return {'sub': s('sub'), 'given_name': s('g'), 'address': {'country': s('ac')},
                'place_of_birth': {'country': s('pc')}}
    if deser == 'address_deser':
        return {'country': s('c'), 'locality': s('l')}
    if deser == 'claims_request_deser':
        return {'userinfo': {'given_name': None, 'email': {'essential': True}},
                'id_token': {'acr': {'value': s('v')}, 'x': {'values': [s('v1'), s('v2')]}}}
    if deser == 'claims_deser':
        return {'given_name': None, 'acr': {'value': s('v'), 'essential': False}}
    if t == 'Message' and not deser:
        return s('jwt')
    return {'k': s('k'), 'n': {'m': s('m')}}


def beside(X, key, skip=()):
    """more members next to those that matter: any other declared one or one of an arbitrary name, or all of
    the other declared ones, or none"""
    sp = params(key)
    n = X.pick('beside', ['', '?', '*'] + [p for p in sp if p not in skip])
    if n == '':
        return {}
    if n == '*':
        d = {}
        for p in sp:
            if p not in skip:
                if p in SPEC[key]['allowed']:
                    v = SPEC[key]['allowed'][p][0]
                    d[p] = [v] if sp[p][0] == '[str]' else v
                elif sp[p][0] == 'bool':
                    d[p] = True
                else:
                    d[p] = value(X, sp[p], 'beside_' + p)
        return d
    if n == '?':
        k = X.str('beside_name', minlen=1)
        X.assume(k not in sp)
        X.assume(k not in skip)
        X.assume('__' not in k)
        X.assume('#' not in k)
        return {k: X.str('beside_value', minlen=1)}
    return {n: value(X, sp[n], 'beside_' + n, allowed=SPEC[key]['allowed'].get(n))}


def put(m, d):
    for k, v in d.items():
        m[k] = v
    return m
