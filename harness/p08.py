"""A message against a plain dictionary over histories of operations."""
from harness.common import cls_of, params
from oidcmsg.message import Message

BOUNDS = 'every sequence of 3 operations (4 in the thorough tier) out of 20 kinds (assignment, ' \
         'deletion, pop, pop with default, setdefault, update from a dictionary and from a message, ' \
         'rm_blanks, weed, clear, popitem, copy and go on with the copy, copy and change the copy, ' \
         'comparing with an equal message, assignment of nested objects and of 0, null, false) on an AuthorizationRequest, an IdToken and a bare Message; keys: '\
         'declared string and list members, language-tagged ones and any other name ' \
         '(symbolic text that may coincide with declared names); strings of any content, also empty'
OUTSIDE = 'assignment of empty lists and of values that need conversion (P03); iteration order of ' \
          'what popitem removes'
TYPES = {'AuthorizationRequest': 'oidcmsg.oauth2:AuthorizationRequest', 'IdToken': 'oidcmsg.oidc:IdToken',
         'Message': 'oidcmsg.message:Message'}
KNOWN = {t: set(params(k)) if t != 'Message' else set() for t, k in TYPES.items()}
STR = {'AuthorizationRequest': 'state', 'IdToken': 'nonce', 'Message': 'state'}
LST = {'AuthorizationRequest': 'scope', 'IdToken': 'amr', 'Message': 'scope'}
OPS = ['set str', 'set list', 'set tagged', 'set other', 'del str', 'del other', 'pop other', 'pop default',
       'setdefault', 'update dict', 'update message', 'rm_blanks', 'weed', 'clear', 'popitem', 'copy on',
       'copy off', 'rebuild', 'set nested', 'set falsy']


def look(c, k):
    return c[k]


def drop(c, k):
    del c[k]


def pop(c, k):
    return c.pop(k)


def agree(X, m, d, t, other):
    X.check(len(m) == len(d), 'the length is wrong')
    X.check(list(m.keys()) == list(d.keys()), 'the keys are wrong')
    X.check([k for k in m] == list(d), 'iteration is wrong')
    X.check(list(m.values()) == list(d.values()), 'the values are wrong')
    X.check(list(m.items()) == list(d.items()), 'the items are wrong')
    for k in [STR[t], LST[t], STR[t] + '#sv', other]:
        X.check((k in m) == (k in d), 'membership is wrong')
        X.check(m.get(k) == d.get(k), 'get is wrong')
        X.check(m.get(k, 'dflt') == d.get(k, 'dflt'), 'get with a default is wrong')
        o = X.run(look, m, k)
        if k in d:
            X.check(o.ok and o.value == d[k], 'a lookup gives another value')
        else:
            X.check(o.is_exc(KeyError), 'looking up a missing member is no KeyError')
    ex = {k: v for k, v in d.items() if k not in KNOWN[t]}
    X.check(m.extra() == ex, 'the extra members are wrong')
    X.check(m.only_extras() == (len(ex) == len(d)), 'only_extras is wrong')


def make(t):
    cls = cls_of(TYPES[t])

    def run(X):
        n = 4 if X.tier == 'thorough' else 3
        other = 'x_other'
        m, d = cls(set_defaults=False), {}
        for i in range(n):
            op = X.pick('op%d' % i, OPS)
            v = X.str('v%d' % i, exclude=' ')
            if op == 'set str':
                m[STR[t]] = v
                d[STR[t]] = v
            elif op == 'set list':
                m[LST[t]] = [v]
                d[LST[t]] = [v]
            elif op == 'set tagged':
                m[STR[t] + '#sv'] = v
                d[STR[t] + '#sv'] = v
            elif op == 'set other':
                m[other] = v
                d[other] = v
            elif op in ('del str', 'del other'):
                k = STR[t] if op == 'del str' else other
                a, b = X.run(drop, m, k), X.run(drop, d, k)
                X.check(a.kind == b.kind, 'deletion has another outcome')
            elif op == 'pop other':
                a, b = X.run(pop, m, other), X.run(pop, d, other)
                X.check(a.kind == b.kind and (not b.ok or a.value == b.value), 'pop has another outcome')
            elif op == 'pop default':
                X.check(m.pop(STR[t], 'x') == d.pop(STR[t], 'x'), 'pop gives another value')
            elif op == 'setdefault':
                X.check(m.setdefault(STR[t], v) == d.setdefault(STR[t], v), 'setdefault gives another value')
            elif op == 'update dict':
                m.update({STR[t]: v, 'extra_%d' % i: [v]})
                d.update({STR[t]: v, 'extra_%d' % i: [v]})
            elif op == 'update message':
                m.update(Message(**{STR[t]: 'w' + v, LST[t]: [v, 'z']}))
                d.update({STR[t]: 'w' + v, LST[t]: [v, 'z']})
            elif op == 'rm_blanks':
                m.rm_blanks()
                d = {k: x for k, x in d.items() if x}
            elif op == 'weed':
                m.weed()
                d = {k: x for k, x in d.items() if k in KNOWN[t]}
            elif op == 'clear':
                m.clear()
                d = {}
            elif op == 'popitem':
                if d:
                    k, x = m.popitem()
                    X.check(d[k] == x, 'popitem gives something else')
                    del d[k]
                else:
                    X.check(X.run(m.popitem).is_exc(KeyError), 'popitem of an empty message')
            elif op == 'copy on':
                old, m = m, m.copy()
                X.check(type(m) is cls and m == old and not (m != old), 'a copy differs')
                old['zz'] = v
                if isinstance(old.get(LST[t]), list):
                    old[LST[t]].append(v)
                if 'nested' in old:
                    old['nested']['k'].append(v)
                    old['nested msg']['state'] = 'changed'
                old.pop(STR[t], None)
            elif op == 'copy off':
                c = m.copy()
                c['zz'] = 'x'
                if isinstance(c.get(LST[t]), list):
                    c[LST[t]].append('x')
                if 'nested' in c:
                    c['nested']['k'].append('x')
                    c['nested msg']['state'] = 'changed'
                c.pop(STR[t], None)
                X.check(m != c and not (m == c), 'a changed copy is still equal')
            elif op == 'set nested':
                m['nested'] = {'k': [v]}
                d['nested'] = {'k': [v]}
                m['nested msg'] = Message(state='w' + v)
                d['nested msg'] = Message(state='w' + v)
            elif op == 'set falsy':
                f = X.pick('falsy%d' % i, [0, None, False])
                m['x_falsy'] = f
                d['x_falsy'] = f
            else:
                m2 = cls(set_defaults=False)
                m2.update(dict(reversed(list(d.items()))))
                X.check(m2 == m and m == m2, 'messages with the same content are not equal')
                X.check(m != Message(**d) or t == 'Message', 'messages of other types are equal')
                X.check(m != d, 'a message equals a dictionary')
        X.reach('done')
        agree(X, m, d, t, other)
        X.note('keys', list(m.keys()))

    return run


def equality(X):
    """equality is content equality"""
    cls = cls_of('oidcmsg.oauth2:AuthorizationRequest')
    a, b = cls(), cls()
    for i, m in enumerate((a, b)):
        if X.bool('state%d' % i):
            m['state'] = X.str('s%d' % i)
        if X.bool('scope%d' % i):
            m['scope'] = [X.str('a%d' % i, exclude=' '), X.str('b%d' % i, exclude=' ')][:X.pick('n%d' % i, [1, 2])]
        if X.bool('x%d' % i):
            m['x'] = {'k': X.str('k%d' % i)}
    same = dict(a.items()) == dict(b.items())
    X.check((a == b) == same and (b == a) == same and (a != b) == (not same), 'equality is not equality of content')
    X.check((cls(**{'state': 'a'}) == Message(state='a')) is False, 'messages of different types are equal')


def any_key(X):
    """one symbolic key"""
    m = cls_of(TYPES['AuthorizationRequest'])(set_defaults=False)
    m['state'] = X.str('v', minlen=1)
    m.update({'zz': 'x'})
    d = dict(m.items())
    key = X.str('key', 14, 1, 'a-z_') + X.pick('tag', ['', '#', '#sv', '#a#b'])
    op = X.pick('op', ['get', 'del', 'pop', 'set', 'setdefault', 'update', 'weed'])
    if op in ('del', 'pop'):
        a, b = (X.run(drop, m, key), X.run(drop, d, key)) if op == 'del' else (
            X.run(pop, m, key), X.run(pop, d, key))
        X.check(a.kind == b.kind, 'removal has another outcome')
    elif op == 'set':
        X.assume(key.split('#')[0] not in KNOWN['AuthorizationRequest'] or key.split('#')[0] in (
            'scope', 'response_type'))
        m[key] = ['w']
        d[key] = ['w']
    elif op == 'setdefault':
        X.assume(key.split('#')[0] not in KNOWN['AuthorizationRequest'] or key == 'state')
        X.check(m.setdefault(key, 'w') == d.setdefault(key, 'w'), 'setdefault gives something else')
    elif op == 'update':
        m.update({key: 'w'})
        d.update({key: 'w'})
    elif op == 'weed':
        m.update({key: 'w'})
        m.weed()
        d = {k: x for k, x in list(d.items()) + [(key, 'w')] if k in KNOWN['AuthorizationRequest']}
    agree(X, m, d, 'AuthorizationRequest', key)


CASES = {t: make(t) for t in TYPES}
CASES['equality'] = equality
CASES['any key'] = any_key
EXPECT_REACHED = ['done']
