"""The file store against a dictionary."""
from oidcmsg.storage.abfile import AbstractFileSystem

BOUNDS = 'every sequence of 3 operations (4 in the thorough tier) out of set, delete, update with two keys, clear and ' \
         'going on with a newly opened store, over two keys that are arbitrary non-empty texts (one ' \
         'character, equal or not) with arbitrary values (text as it is; texts, numbers, lists and dictionaries as ' \
         'JSON); the same with keys that look like directories, escapes and locks'
OUTSIDE = 'the empty key; surrogates; full or read-only disks; keys whose file name is longer than the file system ' \
          'allows; what iterating over the store itself gives (pairs)'
EXPECT_REACHED = ['compared', 'reopened', 'special', 'label', 'untouched']
QUICK_BUDGET = 200
JSON = 'oidcmsg.storage.converter.JSON'


def look(s, k):
    return s[k]


def put(s, k, v):
    s[k] = v


def drop(s, k):
    del s[k]


def agree(X, s, d, keys, listing_first=False):
    if listing_first:
        listed(X, s, d)
        lookups(X, s, d, keys)
    else:
        lookups(X, s, d, keys)
        listed(X, s, d)
    X.reach('compared')


def lookups(X, s, d, keys):
    for k in keys:
        X.check((k in s) == (k in d), 'membership is wrong')
        o = X.run(look, s, k)
        if k in d:
            X.check(o.ok and o.value == d[k], 'a lookup gives another value')
            X.check(s.get(k) == d[k], 'get gives another value')
        else:
            X.check(o.is_exc(KeyError), 'looking up a missing key is no KeyError')
            X.check(s.get(k) is None, 'get of a missing key gives a value')
            X.check(s.get(k, 'dflt') == 'dflt', 'get of a missing key does not give the default')


def listed(X, s, d):
    X.check(len(s) == len(d), 'the length is wrong')
    ks = list(s.keys())
    X.check(len(ks) == len(d), 'the number of keys is wrong')
    X.check(s() == ks, 'calling the store does not list the keys')
    for k in d:
        X.check(k in ks, 'a key is not listed')
    its = list(s.items())
    X.check(len(its) == len(d), 'the number of items is wrong')
    for k, v in its:
        X.check(k in d and d[k] == v, 'an item is wrong')


def key(X, name, alphabet):
    return X.vec(name, 1, 1, alphabet=alphabet)


def value(X, name, kind):
    if kind == 'text':
        return X.str(name)
    if kind == 'number':
        return X.int(name)
    return {'k': [X.str(name)]}


def history(keys_of, conv, steps):
    def run(X):
        fs = X.fs()
        conf = {'fdir': fs.dir('store')}
        if conv:
            conf['value_conv'] = conv
        s = AbstractFileSystem(conf)
        d = {}
        a, b = keys_of(X)
        kind = X.pick('values', ['text', 'number', 'dict']) if conv else 'text'
        n = steps + (X.tier == 'thorough')
        for i in range(n):
            op = X.pick('op%d' % i, ['set a', 'set b', 'del a', 'del b', 'update', 'clear', 'reopen'])
            if op[:3] == 'set':
                k = a if op == 'set a' else b
                v = value(X, 'v%d' % i, kind)
                o = X.run(put, s, k, v)
                X.check(o.ok, 'storing a value fails')
                d[k] = v
            elif op[:3] == 'del':
                k = a if op == 'del a' else b
                o = X.run(drop, s, k)
                if k in d:
                    X.check(o.ok, 'deleting an entry fails')
                    del d[k]
                else:
                    X.check(o.ok or o.is_exc(KeyError), 'deleting a missing entry fails with another error')
            elif op == 'update':
                new = {a: value(X, 'u%d' % i, 'text')}
                new[b] = value(X, 'w%d' % i, kind)
                o = X.run(s.update, new)
                X.check(o.ok, 'an update fails')
                d.update(new)
            elif op == 'clear':
                o = X.run(s.clear)
                X.check(o.ok, 'clearing fails')
                d.clear()
            else:
                s = AbstractFileSystem(conf)
                X.reach('reopened')
        agree(X, s, d, [a, b])
        X.check(len(fs.names(fs.dir('store'))) == len(d), 'the files are not one per entry')
        agree(X, AbstractFileSystem(conf), d, [a, b], True)
    return run


def texts(X):
    return key(X, 'a', 'a-f/ é'), key(X, 'b', 'a-f/')


SPECIAL = ['.', '..', 'a.lock', '.lock', 'a', 'a%2Elock', 'a/b', '../x', '/tmp/x', 'a b', 'a+b', '%', 'é', '.lock.lock', '~', 'a.lock.b', '.a', '..a']


def special(X):
    X.reach('special')
    a = X.pick('a', SPECIAL)
    return a, X.pick('b', ['a', 'a.lock', 'a+b'] if X.tier == 'quick' else SPECIAL)


def elsewhere(X):
    """stores in different directories, and with another issuer, know nothing of each other"""
    fs = X.fs()
    k, v = key(X, 'a', 'a-f/ é'), X.str('v')
    if X.bool('issuer'):
        one = {'fdir': fs.dir('{issuer}'), 'issuer': 'one'}
        two = {'fdir': fs.dir('{issuer}'), 'issuer': 'two'}
    else:
        one, two = {'fdir': fs.dir('one')}, {'fdir': fs.dir('two')}
    s, t = AbstractFileSystem(one), AbstractFileSystem(two)
    s[k] = v
    w = X.str('w')
    if X.bool('both'):
        t[k] = w
        X.check(s[k] == v and t[k] == w, 'a store returns the value of another store')
    else:
        X.check(k not in t and len(t) == 0 and t.get(k) is None, 'an entry is seen in another store')
    if X.bool('clear'):
        t.clear()
    elif X.bool('del'):
        del t[k]
    X.check(s[k] == v and AbstractFileSystem(one)[k] == v and len(s) == 1, 'a store is changed through another')
    X.reach('untouched')


def no_issuer(X):
    fs = X.fs()
    o = X.run(AbstractFileSystem, {'fdir': fs.dir('{issuer}')})
    X.check(not o.ok, 'a store that needs an issuer is made without')
    X.reach('label')


CASES = {'texts': history(texts, None, 3), 'json': history(texts, JSON, 2), 'special': history(special, None, 2),
         'elsewhere': elsewhere, 'no issuer': no_issuer}
