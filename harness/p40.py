"""The SQL store."""
import json

from oidcmsg.storage.absqlalchemy import AbstractStorageSQLAlchemy
from oidcmsg.storage.db_setup import create_database

BOUNDS = 'two stores (processes) on one database; every sequence of 3 operations (4 in the thorough tier) out of ' \
         'assignment, set, update, delete, flush and lookups by either, over two keys of arbitrary text (also equal ' \
         'to values, and contained in one another) and arbitrary values; after every operation both stores are ' \
         'asked for everything; an assignment, set, update or deletion of one, with another one looking everything ' \
         'up before every statement and commit of it (what a crash there leaves behind is what it sees)'
OUTSIDE = 'databases other than SQLite; several rows of one owner; values that are not text; two writers ' \
          'at the same time (SQLite lets one of them wait or fail)'
EXPECT_REACHED = ['stored', 'replaced', 'updated', 'deleted', 'absent', 'member', 'listed', 'no table', 'overlap']
QUICK_BUDGET = 240


def put(s, k, v):
    s[k] = v


def pairs(rows):
    return [(r.owner, r.data) for r in rows]


def same(X, rows, ref, what):
    got = pairs(rows)
    X.check(len(got) == len(ref), what + ' does not have the entries that were stored')
    for k, v in ref:
        n = [d for o, d in got if o == k]
        X.check(len(n) == 1 and n[0] == v, what + ' does not have the value that was stored last')


def truth(X, s, who, ref, keys, values):
    for k in keys:
        there = [v for o, v in ref if o == k]
        o = X.run(s.get, k)
        X.check(o.ok, 'a lookup by %s fails' % who)
        X.check((k in s) is (len(there) > 0), 'membership is wrong for ' + who)
        if there:
            X.check(o.value == there[0], '%s does not get the value that was stored last' % who)
            X.reach('member')
        else:
            X.check(o.value is None, '%s gets a value of a key that has none' % who)
            X.reach('absent')
    for v in values:
        if len([k for k, w in ref if k == v]) == 0:
            X.check((v in s) is False, 'a text that is no key is said to be one, to ' + who)


def listings(X, s, who, ref):
    o = X.run(s)
    X.check(o.ok, 'listing fails')
    same(X, o.value, ref, 'the listing of ' + who)
    o = X.run(lambda: [r for r in s])
    X.check(o.ok, 'iterating over a store fails')
    same(X, o.value, ref, 'an iteration by ' + who)
    o = X.run(str, s)
    X.check(o.ok, 'a store cannot be shown')
    rows = json.loads(o.value)
    X.check(len(rows) == len(ref), 'the text form does not show all entries')
    for k, v in ref:
        X.check(len([r for r in rows if r[1] == k and r[2] == v]) == 1, 'the text form does not show an entry')
    X.reach('listed')


def setup(X):
    conf = {'url': X.db(), 'params': {'table': 'thing'}}
    create_database(conf)
    return conf


def history(X):
    conf = setup(X)
    stores = [AbstractStorageSQLAlchemy(conf), AbstractStorageSQLAlchemy(conf)]
    k1 = X.str('k1')
    k2 = X.str('k2')
    X.assume(k1 != k2)
    ref, values = [], []
    for i in range(4 if X.tier == 'thorough' else 3):
        op = X.pick('op%d' % i, ['[]', 'set', 'update', 'delete', 'flush'])
        who = X.pick('who%d' % i, [0, 1] if i else [0])
        s = stores[who]
        if op == 'flush':
            X.check(X.run(s.flush).ok, 'flushing fails')
            continue
        k = X.pick('key%d' % i, [k1, k2] if i else [k1])
        old = [v for o, v in ref if o == k]
        rest = [(o, v) for o, v in ref if o != k]
        if op in ('[]', 'set', 'update'):
            v = X.str('v%d' % i)
            values = values + [v]
            o = X.run(put, s, k, v) if op == '[]' else X.run(s.set if op == 'set' else s.update, k, v)
            X.check(o.ok, 'storing a value fails')
            if op != 'update' or old:
                ref = rest + [(k, v)]
                X.reach('updated' if op == 'update' else 'replaced' if old else 'stored')
        else:
            o = X.run(s.delete, k)
            X.check(o.ok, 'deleting an entry fails')
            X.check(o.value == len(old), 'the number of deleted entries is wrong')
            ref = rest
            X.reach('deleted')
        truth(X, stores[1 - who], 'another process', ref, [k1, k2], values)
        truth(X, s, 'the process itself', ref, [k1, k2], values)
    listings(X, stores[0], 'one process', ref)
    listings(X, stores[1], 'another process', ref)
    fresh = AbstractStorageSQLAlchemy(conf)
    truth(X, fresh, 'a process started later', ref, [k1, k2], values)


def overlap(X):
    """another process looks at any moment of an operation, or the process dies there"""
    conf = setup(X)
    a, b = AbstractStorageSQLAlchemy(conf), AbstractStorageSQLAlchemy(conf)
    k, other = X.str('k'), X.str('other')
    X.assume(k != other)
    old = None
    if X.bool('stored before'):
        old = X.str('old')
        a[k] = old
    if X.bool('other stored'):
        b[other] = 'x'
    op = X.pick('op', ['[]', 'set', 'update', 'delete'])
    v = X.str('v')
    new = v if op in ('[]', 'set') else None if op == 'delete' else v if old is not None else None
    seen = []

    def look():
        rows = [r.data for r in b() if r.owner == k]
        seen.append((b.get(k), k in b, rows, b.get(other)))

    o = X.between({'[]': lambda: put(a, k, v), 'set': lambda: a.set(k, v), 'update': lambda: a.update(k, v),
                   'delete': lambda: a.delete(k)}[op], look)
    X.check(o.ok, 'an operation fails while another process reads')
    for got, member, rows, oth in seen:
        X.check(len(rows) <= 1, 'an entry is there twice while it is replaced')
        if got is None:
            X.check(old is None or op == 'delete', 'an entry is missing while it is replaced')
        else:
            X.check((old is not None and got == old) or (new is not None and got == new),
                    'another process sees a value nobody stored')
        if old is not None and new is not None:
            X.check(member is True and len(rows) == 1, 'an entry is missing while it is replaced')
        X.check(oth == b.get(other), 'another entry changes meanwhile')
    X.check(len(seen) > 0, 'harness: no statement was seen')
    X.check(b.get(k) == new if new is not None else b.get(k) is None, 'the operation has not been done in the end')
    X.reach('overlap')


def no_table(X):
    url = X.db()
    if X.bool('created'):
        create_database({'url': url})
        create_database({'url': url})        # once more does no harm
        s = AbstractStorageSQLAlchemy({'url': url, 'params': {'table': 'thing'}})
        k, v = X.str('k'), X.str('v')
        s[k] = v
        create_database({'url': url})
        X.check(s.get(k) == v, 'creating the database again loses entries')
        o = X.run(AbstractStorageSQLAlchemy, {'url': url, 'params': {'table': 'other'}})
    else:
        o = X.run(AbstractStorageSQLAlchemy, {'url': url, 'params': {'table': 'thing'}})
    X.check(not o.ok, 'a store is opened on a table that does not exist')
    X.reach('no table')


CASES = {'history': history, 'overlap': overlap, 'no table': no_table}
