"""Several processes on one directory."""
from oidcmsg.storage.abfile import AbstractFileSystem

BOUNDS = 'two stores (processes) on one directory; every sequence of 4 operations (5 in the thorough tier) out of set, ' \
         'delete and lookup by either and a rewrite of the file by hand, over one key (2 operations, ' \
         '3 in the thorough tier, clearing included, for eight keys with dots, slashes, blanks and ".lock" in them); and every operation of one ' \
         '(lookup, set, delete, listing, update, opening a store) with a set, delete or rewrite of the other let in ' \
         'before any of its file system calls; keys of one character, arbitrary values, each write at any later ' \
         'time (1 ns to 3 s)'
OUTSIDE = 'writes that leave the modification time as it was; more than one interruption of an operation; ' \
          'interruptions while a file lock is held by an operation that does not need it; crashes in the middle ' \
          'of a write'
EXPECT_REACHED = ['seen', 'removed', 'interrupted', 'bad content', 'opened']
QUICK_BUDGET = 240
JSON = 'oidcmsg.storage.converter.JSON'


def look(s, k):
    return s[k]


def put(s, k, v):
    s[k] = v


def drop(s, k):
    del s[k]


def listing(s):
    return list(s.items())


def truth(X, who, s, k, there, v):
    X.check((k in s) == there, 'membership does not follow the other process')
    o = X.run(look, s, k)
    if there:
        X.check(o.ok, 'an entry written by ' + who + ' is not found')
        X.check(o.value == v, 'a lookup does not give what was written last')
        X.check(s.get(k) == v, 'get does not give what was written last')
        X.reach('seen')
    else:
        X.check(not o.ok, 'a removed entry is still found')
        X.check(o.is_exc(KeyError), 'a lookup of a removed entry is no KeyError')
        X.check(s.get(k, 'dflt') == 'dflt', 'get of a removed entry does not give the default')
        X.reach('removed')


def history(X):
    steps(X, X.vec('k', 1, 1, alphabet='a-f/'), 'a', 5 if X.tier == 'thorough' else 4)


NAMES = {'a.lock': 'a%2Elock', 'a.lock.b': 'a.lock.b', 'https://a/b': 'https%3A%2F%2Fa%2Fb', '..': '%2E%2E',
         '.a': '.a', '..a': '..a', 'a b+c': 'a+b%2Bc', 'a.json': 'a.json'}


def names(X):
    k = X.pick('k', list(NAMES))
    steps(X, k, NAMES[k], 3 if X.tier == 'thorough' else 2, ['clear A', 'clear B'])


def steps(X, k, name, n, more=()):
    fs = X.fs()
    d = fs.dir('store')
    conf = {'fdir': d}
    stores = [AbstractFileSystem(conf), AbstractFileSystem(conf)]
    there, v = False, None
    for i in range(n):
        op = X.pick('op%d' % i, ['set A', 'set B', 'del A', 'del B', 'look A', 'look B', 'by hand'] + list(more))
        s = stores[0] if op.endswith('A') else stores[1]
        if op[:3] == 'set':
            v = X.str('v%d' % i)
            X.check(X.run(put, s, k, v).ok, 'storing a value fails')
            there = True
        elif op[:3] == 'del':
            X.run(drop, s, k)
            there = False
        elif op[:5] == 'clear':
            X.check(X.run(s.clear).ok, 'emptying a store fails')
            there = False
        elif op[:4] == 'look':
            truth(X, 'another process', s, k, there, v)
        else:
            X.assume(k == 'a' or k in NAMES)
            v = X.str('v%d' % i)
            fs.put(d, name, v)
            there = True
    for s in stores:
        truth(X, 'another process', s, k, there, v)
        ks = list(s.keys())
        X.check(len(ks) == (1 if there else 0), 'the keys listed are not those of the files')
        X.check((k in s) == there, 'membership is wrong')


def interrupted(X):
    fs = X.fs()
    d = fs.dir('store')
    conf = {'fdir': d}
    k = 'a b'
    old, new, mine = X.str('old'), X.str('new'), X.str('mine')
    a = AbstractFileSystem(conf)
    b = AbstractFileSystem(conf)
    state = X.pick('before', ['nothing', 'written by A', 'written by B', 'written by B and seen', 'rewritten'])
    if state == 'written by A':
        a[k] = old
    elif state != 'nothing':
        b[k] = old
        if state == 'written by B and seen':
            X.run(look, a, k)
        elif state == 'rewritten':
            X.run(look, a, k)
            old = X.str('old2')
            b[k] = old
    other = X.pick('other', ['set', 'del', 'clear'])

    def interruption():
        if other == 'set':
            b[k] = new
        elif other == 'del':
            del b[k]
        else:
            b.clear()
    op = X.pick('op', ['look', 'set', 'del', 'list', 'update', 'open', 'len', 'in'])
    when = X.pick('when', list(range(12)))
    fs.interrupt(when, interruption)
    if op == 'look':
        o = X.run(look, a, k)
    elif op == 'set':
        o = X.run(put, a, k, mine)
    elif op == 'del':
        o = X.run(drop, a, k)
    elif op == 'list':
        o = X.run(listing, a)
    elif op == 'update':
        o = X.run(a.update, {k: mine})
    elif op == 'len':
        o = X.run(len, a)
    elif op == 'in':
        o = X.run(a.__contains__, k)
    else:
        o = X.run(AbstractFileSystem, conf)
        if o.ok:
            a = o.value
            X.reach('opened')
    if not fs.settle():
        X.assume(False)          # it was over before
    X.reach('interrupted')
    X.note('outcome', o.kind)
    if op == 'look':
        if o.ok:
            X.check((state != 'nothing' and o.value == old) or (other == 'set' and o.value == new),
                    'a lookup gives a value that was never there')
        else:
            X.check(o.is_exc(KeyError), 'a lookup fails with another error')
            X.check(state == 'nothing' or other != 'set', 'a lookup fails though the entry was there all the time')
    elif op == 'del':
        X.check(o.ok or o.is_exc(KeyError), 'deleting fails with another error')
    else:
        X.check(o.ok, 'an operation fails because another process works on the directory')
        if op == 'list':
            for kk, vv in o.value:
                X.check(kk == k and ((state != 'nothing' and vv == old) or (other == 'set' and vv == new)),
                        'a listing gives a value that was never there')
    c = AbstractFileSystem(conf)
    t = X.run(look, c, k)
    for s in (a, b):
        truth(X, 'another process', s, k, t.ok, t.value)


def bad(X):
    """content that cannot be read is an error until it is replaced, never the old value"""
    fs = X.fs()
    d = fs.dir('store')
    conf = {'fdir': d, 'value_conv': JSON}
    a = AbstractFileSystem(conf)
    v = X.str('v')
    a['k'] = [v]
    if X.bool('other store'):
        a = AbstractFileSystem(conf)
    fs.put(d, 'k', 'x' + X.str('junk', 3, alphabet='a-f'))
    for i in range(X.pick('lookups', [1, 2, 3])):
        o = X.run(look, a, 'k')
        X.check(not o.ok, 'content that cannot be read is not an error')
    w = X.str('w')
    if X.bool('replaced by hand'):
        fs.put(d, 'k', '{}')
        o = X.run(look, a, 'k')
        X.check(o.ok and o.value == {}, 'a lookup does not give what was written last')
    else:
        b = AbstractFileSystem(conf)
        b['k'] = [w]
        o = X.run(look, a, 'k')
        X.check(o.ok and o.value == [w], 'a lookup does not give what was written last')
    X.reach('bad content')


CASES = {'history': history, 'names': names, 'interrupted': interrupted, 'bad content': bad}
