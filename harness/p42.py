"""Describing a message type and selecting members by it."""
import copy

from harness.common import SPEC, cls_of, params, required, short, wire
from oidcmsg.message import Message, add_non_standard, by_schema
from oidcmsg.oauth2 import is_error_message

BOUNDS = 'every message type; asked for its members, its required members and the type of every declared member and of any ' \
         'other name; by_schema with the first or the last declared member (thorough: any) a member of arbitrary name (declared or not) and an undeclared one; ' \
         'add_non_standard between every pair of six types, the second with a member only it declares, one both ' \
         'declare, and two of arbitrary names, the first with members of the same names or not; ' \
         'is_error_message of messages of five types (thorough: every type) with any one member and any other name'
OUTSIDE = 'nothing else'
PAIRS = ['oidcmsg.message:Message', 'oidcmsg.oauth2:AuthorizationRequest', 'oidcmsg.oidc:AuthorizationRequest',
         'oidcmsg.oidc:RegistrationRequest', 'oidcmsg.oidc:IdToken', 'oidcmsg.oauth2:TokenErrorResponse']
TYPES = {'str': str, 'int': int, 'bool': bool, 'dict': dict, '[str]': [str], 'Message': Message}


def decl(key):
    return {} if key.endswith(':Message') else params(key)


def describe(X):
    key = X.pick('type', list(SPEC))
    cls = cls_of(key)
    m = cls(set_defaults=False)
    X.clock(1700000000 * 1000000)
    if X.bool('filled'):
        m['undeclared'] = X.str('u')
    ps = m.parameters()
    X.check(len(ps) == len(set(ps)) and set(ps) == set(params(key)), '%s: the members are not those declared' % short(key))
    ps.append('more')
    X.check('more' not in cls().parameters(), '%s: the list of members is not a copy' % short(key))
    rs = m.required_parameters()
    X.check(sorted(rs) == sorted(required(key)), '%s: the required members are not those declared' % short(key))
    for n, s in params(key).items():
        t = m.value_type(n)
        if isinstance(t, tuple):
            t = t[0]
        if s[0] in TYPES:
            X.check(t == TYPES[s[0]], '%s: the type of %s is wrong' % (short(key), n))
        elif s[0].startswith('['):
            X.check(isinstance(t, list) and t[0].__name__ == s[0][1:-1], '%s: the type of %s is wrong' % (short(key), n))
        else:
            X.check(t.__name__ == s[0], '%s: the type of %s is wrong' % (short(key), n))
    n = X.str('name')
    t = X.run(m.value_type, n)
    if n not in params(key):
        X.check(t.ok and t.value is None, '%s: an undeclared member has a type' % short(key))
        X.reach('undeclared')
    X.reach('described')


def name(X, tag, prefixes):
    """any name: a declared one or other text"""
    return X.pick(tag + ' prefix', prefixes) + X.vec(tag, 4, 0, 'a-z_')


def schema(X):
    key = X.pick('type', list(SPEC))
    cls = cls_of(key)
    kw = {}
    ps = params(key)
    if ps:
        kw[X.pick('member', ([list(ps)[0], list(ps)[-1]] if X.tier == 'quick' else list(ps)) + [None])] = X.pick(
            'value', ['text', None, []])
        kw.pop(None, None)
    kw[name(X, 'a', ['x', 'st'] if X.tier == 'quick' else ['x', 'st', '_', 'scope', 'error'])] = X.str('va')
    kw['other'] = {'x': X.str('vb')}
    o = X.run(lambda: by_schema(cls, **kw))
    X.check(o.ok, '%s: by_schema fails' % short(key))
    X.check(o.value == {k: v for k, v in kw.items() if k in ps}, '%s: by_schema does not give the declared members' % short(key))
    if X.tier == 'thorough':
        X.check(X.run(lambda: by_schema(cls(set_defaults=False), **kw)).value == o.value,
                '%s: by_schema of an instance differs' % short(key))
    X.reach('schema')


def nonstd(X):
    k1, k2 = X.pick('first', PAIRS), X.pick('second', PAIRS)
    p1, p2 = decl(k1), decl(k2)
    m1, m2 = cls_of(k1)(set_defaults=False), cls_of(k2)(set_defaults=False)
    only2 = [n for n in p2 if n not in p1 and p2[n][0] == 'str' and not SPEC[k2]['allowed'].get(n)][:1] if p2 else []
    only1 = [n for n in p1 if n not in p2 and p1[n][0] == 'str' and not SPEC[k1]['allowed'].get(n)][:1] if p1 else []
    both = [n for n in p2 if n in p1 and p1[n][0] == 'str'][:1]
    for n in only2 + both:
        m2[n] = X.str('second ' + n, minlen=1)
    for n in only1:
        # undeclared in the second, declared in the first
        m2[n] = X.str('second ' + n, minlen=1)
        if X.bool('first has ' + n):
            m1[n] = X.str('first ' + n, minlen=1)
    a, b = 'x_' + X.vec('a', 2, 0, 'a-z'), 'x_' + X.vec('b', 2, 0, 'a-z')
    if X.bool('first has a'):
        m1[a] = X.str('first a')
    m2[a] = X.pick('a is', ['text', 5, {'k': ['v']}, ''])
    m2[b] = X.str('second b')
    d1, d2 = dict(m1._dict), copy.deepcopy(m2._dict)
    o = X.run(add_non_standard, m1, m2)
    X.check(o.ok, 'add_non_standard fails')
    X.check(m2._dict == d2, 'add_non_standard changes the second message')
    want = dict(d1)
    for k, v in d2.items():
        if k not in p2 and k not in p1:
            want[k] = v
    X.check(m1._dict == want, 'add_non_standard: the first message does not have exactly its own members and the '
                              'undeclared ones of the second')
    X.reach('non standard')


def error(X):
    key = X.pick('type', PAIRS[1:] if X.tier == 'quick' else list(SPEC))
    cls = cls_of(key)
    m = cls(set_defaults=False)
    which = X.pick('members', ['none', 'error', 'other', 'both', 'falsy', 'dictionary'])
    n = name(X, 'n', ['error', 'e', 'x'])
    if which in ('other', 'both', 'dictionary'):
        m.update({n: X.str('v')})
    if which in ('error', 'both'):
        m.update({'error': X.str('e')})
    if which == 'falsy':
        m.update({'error': X.pick('falsy', ['', None])})
    X.check(is_error_message(dict(m._dict) if which == 'dictionary' else m) == (
        which in ('error', 'both', 'falsy') or which in ('other', 'dictionary') and n == 'error'), 'is_error_message is wrong')
    X.reach('error')


CASES = {'types': describe, 'by_schema': schema, 'add_non_standard': nonstd, 'is_error_message': error}
EXPECT_REACHED = ['described', 'undeclared', 'schema', 'non standard', 'error']
