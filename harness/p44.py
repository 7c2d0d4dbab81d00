"""The key jar a context makes."""
import os

from oidcmsg.context import OidcContext

from harness.common import *  # noqa

BOUNDS = 'key sets of up to two keys, their material 18 bytes of which the last 3 vary arbitrarily (letters in base64) and their names (kid) of up to 2 ' \
         'letters, usage there or not; entity names arbitrary texts (no length bound) or none; the context made up to ' \
         'three times over the same store, from the same or from another key set; keys of another owner in the store'
OUTSIDE = 'key types other than symmetric ones, keys fetched from the network, files that are written, rotation of keys'
EXPECT_REACHED = ['one', 'two', 'own name', 'no name', 'again', 'no keys', 'file', 'made', 'stored', 'plain', 'params',
                  'other kept']

DISK = {}
PREFIX = 'c2VjcmV0c2VjcmV0c2VjcmV0'   # keys that are too short are refused
FILED = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'keys44.json')
PUBLIC = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'keys44p.json')


def snapshot(v):
    if hasattr(v, 'snapshot'):
        return v.snapshot()
    from cryptojwt.serialize.item import KeyIssuer
    return KeyIssuer().deserialize(KeyIssuer.serialize(v))


class Store:
    """a store that keeps what it is given for whoever opens it again under the same name"""

    def __init__(self, conf):
        self.conf = conf
        if conf['where'] not in DISK:
            DISK[conf['where']] = {}
        self.data = DISK[conf['where']]

    def get(self, key, default=None):
        if key in self.data:
            return snapshot(self.data[key])
        return default

    def __getitem__(self, key):
        return snapshot(self.data[key])

    def __setitem__(self, key, value):
        self.data[key] = snapshot(value)

    def set(self, key, value):
        self[key] = value

    def __delitem__(self, key):
        del self.data[key]

    def __contains__(self, key):
        return key in self.data

    def keys(self):
        return list(self.data.keys())

    def items(self):
        return [(k, snapshot(v)) for k, v in self.data.items()]

    def __iter__(self):
        return iter(self.keys())

    def __len__(self):
        return len(self.data)


STORE = 'harness.p44.Store'


def key(X, tag):
    d = {'kty': 'oct', 'k': PREFIX + X.vec(tag + '_k', 4, 4, alphabet='A-Z'), 'kid': X.vec(tag + '_kid', 2, 1, alphabet='a-z')}
    if X.bool(tag + ' has a use'):
        d['use'] = X.pick(tag + ' use', ['sig', 'enc'])
    return d


def jwks(X, tag, most=2):
    n = X.pick('keys of ' + tag, list(range(1, most + 1)))
    keys = [key(X, '%s%d' % (tag, i)) for i in range(n)]
    if n == 2:
        X.assume(keys[0]['kid'] != keys[1]['kid'])
        X.reach('two')
    else:
        X.reach('one')
    return {'keys': keys}


def held(c, owner):
    """descriptions of the keys an owner has"""
    return c.keyjar.export_jwks(True, owner)['keys']


def desc(d):
    return (d['k'], d['kid'], d['use'] if 'use' in d else '')


def count(ks, d):
    n = 0
    for k in ks:
        if desc(k) == desc(d):
            n += 1
    return n


def copies(jw):
    return [dict(d) for d in jw['keys']]


def unchanged(jw, before):
    if len(jw['keys']) != len(before):
        return False
    for a, b in zip(jw['keys'], before):
        if len(a) != len(b):
            return False
        for k, v in b.items():
            if k not in a or a[k] != v:
                return False
    return True


def name(X):
    """the entity's own name"""
    if X.bool('own name'):
        n = X.str('entity', minlen=1)
        X.reach('own name')
        return n
    X.reach('no name')
    return ''


def owners_are(c, names):
    have = c.keyjar.owners()
    if len(have) != len(names):
        return False
    for n in names:
        if n not in have:
            return False
    return True


def exactly(ks, want):
    if len(ks) != len(want):
        return False
    for d in want:
        if count(ks, d) != 1:
            return False
    return True


def given(X):
    """the keys configured, under no name and under the own name; the configuration can be used again"""
    jw = jwks(X, 'a')
    before = copies(jw)
    me = name(X)
    conf = {'jwks': jw}
    params = X.str('params') if X.bool('with params') else None
    if params is not None:
        conf['httpc_params'] = {'verify': params}
    for again in (False, True):
        c = X.run(OidcContext, conf, entity_id=me)
        X.check(c.ok, 'a context is not made')
        c = c.value
        X.check(unchanged(jw, before), 'making a context changes the keys it was configured with')
        X.check(owners_are(c, ['', me] if me else ['']), 'the key jar has other owners than the entity itself')
        X.check(exactly(held(c, ''), before), 'the key jar does not hold exactly the keys configured')
        if me:
            X.check(exactly(held(c, me), before), 'the keys are not there under the own name')
        if params is not None:
            X.check(c.keyjar.httpc_params['verify'] == params, 'the HTTP parameters are not passed on')
            X.reach('params')
        if again:
            X.reach('again')


def nothing(X):
    me = name(X)
    c = X.run(OidcContext, {}, entity_id=me) if X.bool('empty configuration') else X.run(OidcContext, entity_id=me)
    X.check(c.ok, 'a context is not made')
    X.check(len(c.value.keyjar.owners()) == 0, 'keys out of nothing')
    X.reach('no keys')


def stored(X):
    """over a store that outlives the context"""
    me = name(X)
    entry = {'handler': STORE, 'where': 'keys'}
    kind = X.pick('entry', ['own', 'default', 'own and default'])
    db = {}
    if kind == 'own' or kind == 'own and default':
        db['keyjar'] = entry
    if kind == 'default':
        db['default'] = entry
    if kind == 'own and default':
        db['default'] = {'handler': STORE, 'where': 'rest'}
    first = jwks(X, 'a', 2 if X.tier == 'thorough' else 1)
    kept = copies(first)
    o = X.run(OidcContext, {'db_conf': db, 'jwks': first}, entity_id=me)
    X.check(o.ok, 'a context is not made')
    other = X.bool('another owner')
    if other:
        o.value.keyjar.import_jwks({'keys': [{'kty': 'oct', 'k': 'b3RoZXJrZXlvdGhlcmtleW90aGVya2V5', 'kid': 'zzz'}]}, 'https://peer')
        X.assume(me != 'https://peer')
    want = list(kept)
    second = X.pick('second', ['the same', 'none', 'another'])
    conf = {'db_conf': db}
    if second == 'the same':
        conf['jwks'] = first
    if second == 'another':
        n = jwks(X, 'b', 1)
        conf['jwks'] = n
        for d in n['keys']:
            if count(want, d) == 0:
                want.append(dict(d))
    for i in range(2):
        o = X.run(OidcContext, conf, entity_id=me)
        X.check(o.ok, 'a context is not made over a store that has keys')
        c = o.value
        X.check(exactly(held(c, ''), want), 'the key jar does not hold the stored and the configured keys once each')
        if me:
            X.check(exactly(held(c, me), want), 'the own name does not have the stored and the configured keys once each')
        names = ['']
        if me:
            names.append(me)
        if other:
            names.append('https://peer')
            ks = held(c, 'https://peer')
            X.check(len(ks) == 1 and ks[0]['kid'] == 'zzz', 'the keys of others are not kept')
            X.reach('other kept')
        X.check(owners_are(c, names), 'the key jar has other owners than those stored')
    X.check(len(DISK['keys']) == len(names), 'the keys are not kept in the store for them')
    if kind == 'own and default':
        X.check(len(DISK['rest']) == 0, 'the keys are kept in a store meant for something else')
    X.reach('stored')


def defined(X):
    """keys that are read from files or made according to definitions"""
    me = name(X)
    keys = {}
    how = X.pick('how', ['private', 'public', 'both', 'made', 'nowhere'])
    if how == 'private' or how == 'both':
        keys['private_path'] = FILED
    if how == 'public' or how == 'both':
        keys['public_path'] = PUBLIC
    if how == 'made':
        keys['key_defs'] = [{'type': 'oct', 'bytes': 24, 'use': ['sig'], 'kid': 'one'},
                            {'type': 'oct', 'bytes': 24, 'use': ['enc'], 'kid': 'two'}]
    if X.bool('with uri_path'):
        keys['uri_path'] = X.str('uri_path')
    if X.bool('read_only'):
        keys['read_only'] = True
    n = len(keys)
    conf = {'keys': keys}
    if X.bool('key set too'):
        conf['jwks'] = {'keys': [{'kty': 'oct', 'k': 'b3RoZXJrZXlvdGhlcmtleW90aGVya2V5', 'kid': 'zzz'}]}
    persistent = X.bool('stored')
    if persistent:
        conf['db_conf'] = {'default': {'handler': STORE, 'where': 'rest'}, 'keyjar': {'handler': STORE, 'where': 'keys'}}
    for again in (False, True):
        o = X.run(OidcContext, conf, entity_id=me)
        X.check(len(keys) == n, 'making a context changes the configuration')
        if how == 'nowhere':
            X.check(not o.ok, 'keys are to be there but there are none')
            return
        X.check(o.ok, 'a context is not made')
        c = o.value
        X.check(owners_are(c, ['', me] if me else ['']), 'the key jar has other owners than the entity itself')
        own = held(c, '')
        if how == 'made':
            X.check(len(own) == 2 and own[0]['use'] == 'sig' and own[1]['use'] == 'enc',
                    'the keys are not those defined')
            X.reach('made')
        else:
            X.check(len(own) == 1 and own[0]['kid'] == ('public' if how == 'public' else 'filed'),
                    'the keys are not those in the file')
            X.reach('file')
        if me:
            theirs = held(c, me)
            for d in own:
                X.check(count(theirs, d) == 1, 'a key is not there under the own name, once')
            if how != 'made' or not again or not persistent:
                X.check(len(theirs) == len(own), 'there are other keys under the own name')
        if persistent:
            X.check(len(DISK['keys']) == (2 if me else 1), 'the keys are not kept in the store for them')
            X.check(len(DISK['rest']) == 0, 'the keys are kept in a store meant for something else')
        else:
            X.reach('plain')


CASES = {'given': given, 'nothing': nothing, 'stored': stored, 'defined': defined}
