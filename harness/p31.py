"""Labelled views of one store."""
from oidcmsg.storage.abfile import AbstractFileSystem
from oidcmsg.storage.abfile import LabeledAbstractFileSystem
from oidcmsg.storage.extension import LabeledDict
from oidcmsg.storage.init import init_storage

BOUNDS = 'two views with labels of up to two letters or digits (any two different ones) on one store (in memory, or on ' \
         'one directory), every sequence of 3 operations (4 in the thorough tier) out of set, delete and update in ' \
         'either view and clearing a key that is not there, over two keys of up to 3 characters (in the views, equal ' \
         'or not, and looking like labels too) with arbitrary values'
OUTSIDE = 'labels with underscores; views without a label (they are the whole store); the SQLAlchemy store; ' \
          'iterating over a dictionary view while it changes'
EXPECT_REACHED = ['compared', 'file', 'dict', 'missing', 'made']
QUICK_BUDGET = 200


def look(s, k):
    return s[k]


def put(s, k, v):
    s[k] = v


def drop(s, k):
    del s[k]


def agree(X, s, d, keys):
    """a view against a dictionary"""
    for k in keys:
        X.check((k in s) == (k in d), 'membership in a view is wrong')
        o = X.run(look, s, k)
        if k in d:
            X.check(o.ok and o.value == d[k], 'a lookup in a view gives another value')
            X.check(s.get(k) == d[k], 'get in a view gives another value')
            g = X.run(s.get, k, default='dflt')
            X.check(g.ok and g.value == d[k], 'get with a default gives another value')
        else:
            X.check(o.is_exc(KeyError) or (o.ok and o.value is None), 'a lookup of a missing key in a view gives a value')
            X.check(s.get(k) is None, 'get of a missing key gives a value')
            X.check(s.get(k, 'dflt') == 'dflt', 'get of a missing key does not give the default')
            g = X.run(s.get, k, default='dflt')
            X.check(g.ok and g.value == 'dflt', 'get of a missing key does not give the default by name')
            X.reach('missing')
    ks = list(s.keys())
    X.check(len(ks) == len(d), 'the keys of a view are not its own')
    for k in d:
        X.check(k in ks, 'a key of a view is not listed')
    its = list(s)
    X.check(len(its) == len(d), 'iterating over a view gives other entries')
    for k, v in its:
        X.check(k in d and d[k] == v, 'iterating over a view gives other entries')
    if isinstance(s, LabeledAbstractFileSystem):
        X.check(len(s) == len(d), 'the length of a view is wrong')
        its = list(s.items())
        X.check(len(its) == len(d), 'the items of a view are not its own')
        for k, v in its:
            X.check(k in d and d[k] == v, 'the items of a view are not its own')
    X.reach('compared')


def labels(X):
    one = X.vec('one', 2, 1, alphabet='a-c0')
    two = X.vec('two', 2, 1, alphabet='a-c0')
    X.assume(one != two)
    return one, two


def dicts(X):
    one, two = labels(X)
    s, t = LabeledDict(one), LabeledDict(two)
    t.storage = s.storage
    X.reach('dict')
    return s, t


def files(X):
    fs = X.fs()
    conf = {'fdir': fs.dir('store')}
    one, two = labels(X)
    X.reach('file')
    if X.bool('label in the configuration'):
        return LabeledAbstractFileSystem({'fdir': fs.dir('store'), 'label': one}), \
            LabeledAbstractFileSystem({'fdir': fs.dir('store'), 'label': two})
    return LabeledAbstractFileSystem(conf, one), LabeledAbstractFileSystem(conf, two)


def history(make, steps, size):
    def run(X):
        s, t = make(X)
        views = {'1': (s, {}), '2': (t, {})}
        a = X.vec('a', size, 0 if make is dicts else 1, alphabet='a-c_/')
        b = X.vec('b', size, 1, alphabet='a-c_')
        n = steps + (X.tier == 'thorough')
        for i in range(n):
            op = X.pick('op%d' % i, ['set a 1', 'set b 1', 'set a 2', 'update 1', 'update 2', 'del a 1', 'del a 2'])
            v, d = views[op[-1]]
            if op[:3] == 'set':
                k = a if op[4] == 'a' else b
                w = X.str('v%d' % i)
                if make is dicts and i == 0 and X.bool('by method%d' % i):
                    o = X.run(v.set, k, w)
                else:
                    o = X.run(put, v, k, w)
                X.check(o.ok, 'storing in a view fails')
                d[k] = w
            elif op[:3] == 'del':
                o = X.run(drop, v, a)
                if a in d:
                    X.check(o.ok, 'deleting from a view fails')
                    del d[a]
                else:
                    X.check(o.ok or o.is_exc(KeyError), 'deleting a missing entry fails with another error')
            else:
                new = {a: X.str('u%d' % i)}
                new[b] = X.str('w%d' % i)
                o = X.run(v.update, new)
                X.check(o.ok, 'an update of a view fails')
                d.update(new)
        for v, d in views.values():
            agree(X, v, d, [a, b])
    return run


def made(X):
    """what init_storage gives without a configuration is a store of its own"""
    s = init_storage()
    t = init_storage(None, 'other')
    k, v = X.str('k'), X.str('v')
    X.check(X.run(put, s, k, v).ok, 'storing in a default store fails')
    X.check(s[k] == v and k in s, 'a default store does not give what was stored')
    X.check(k not in t, 'an entry is seen in another store')
    X.reach('made')


CASES = {'dicts': history(dicts, 3, 2), 'files': history(files, 2, 1), 'made': made}
