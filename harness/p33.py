"""Selection of storage configuration."""
from urllib.parse import quote_plus

from oidcmsg.context import OidcContext
from oidcmsg.context import add_issuer
from oidcmsg.message import Message
from oidcmsg.storage.init import ConfigurationError
from oidcmsg.storage.init import get_storage_conf
from oidcmsg.storage.init import init_storage
from oidcmsg.storage.init import storage_factory
from oidcmsg.storage.utils import importer
from oidcmsg.storage.utils import modsplit

BOUNDS = 'configurations with the own entry, the default entry and one other entry, each there or not, every name ' \
         'an arbitrary text (no length bound); an entry has a handler (for the selection: or not) and up to two ' \
         'settings of arbitrary names and values; issuers of up to 3 ASCII characters; handler names of up to 6 characters of Unicode'
OUTSIDE = 'entries that are there but empty; entries that are not dictionaries; the key jar that is built on the ' \
          'selected storage (cryptojwt)'
EXPECT_REACHED = ['own', 'default', 'none', 'default asked', 'made', 'no handler', 'issuer', 'split', 'unsplit',
                  'kept', 'context', 'plain']


class Recorder:
    """a handler that remembers what it was given"""

    def __init__(self, conf):
        self.conf = conf
        self.data = {}

    def __setitem__(self, key, value):
        self.data[key] = value

    def __getitem__(self, key):
        return self.data[key]

    def __contains__(self, key):
        return key in self.data

    def keys(self):
        return self.data.keys()

    def items(self):
        return self.data.items()

    def __iter__(self):
        return iter(self.data)

    def __len__(self):
        return len(self.data)


HANDLER = 'harness.p33.Recorder'


def same_map(a, b):
    if len(a) != len(b):
        return False
    for k, v in a.items():
        if k not in b or b[k] != v:
            return False
    return True


def settings(X, tag, n=2):
    """settings of arbitrary distinct names"""
    out = {}
    names = []
    for i in range(X.pick('settings of ' + tag, list(range(n + 1)))):
        k = X.str('%s_k%d' % (tag, i))
        X.assume(k != 'handler')
        for o in names:
            X.assume(k != o)
        names.append(k)
        out[k] = X.str('%s_v%d' % (tag, i))
    return out


def table(X, with_handler=True):
    """(configuration, name of the own entry, what is in it)"""
    own = X.str('own')
    other = X.str('other')
    X.assume(own != 'default')
    X.assume(other != 'default')
    X.assume(own != other)
    X.assume(own != 'abstract_storage_cls')
    X.assume(other != 'abstract_storage_cls')
    db, entries = {}, {}
    for n, k in (('own', own), ('default', 'default'), ('other', other)):
        if X.bool('has ' + n):
            e = {'id': X.str('id of ' + n, minlen=1)}
            if with_handler is True or with_handler is None and X.bool('handler of ' + n):
                e['handler'] = HANDLER
            db[k] = e
            entries[n] = dict(e)
    return db, own, entries


def select(X):
    db, own, entries = table(X, None)
    typ = X.pick('asked', ['own', 'default', 'omitted'])
    name = own if typ == 'own' else 'default'
    o = X.run(get_storage_conf, db) if typ == 'omitted' else X.run(get_storage_conf, db, name)
    X.note('conf', o)
    if not db:
        X.check(o.ok and o.value is None, 'something is selected from an empty configuration')
        X.reach('none')
    elif typ == 'own' and 'own' in entries:
        X.check(o.ok and same_map(o.value, entries['own']), 'the own entry is not used')
        X.reach('own')
    elif 'default' in entries:
        X.check(o.ok and o.value is not None and same_map(o.value, entries['default']),
                'the default entry is not used')
        X.reach('default')
    elif typ == 'own':
        X.check(o.ok and o.value is None, 'something is selected though there is neither an own nor a default entry')
        X.reach('none')
    else:
        X.check(not o.ok, 'asking for a missing default entry is not an error')
        X.check(o.is_exc(ConfigurationError), 'asking for a missing default entry is not a configuration error')
        X.reach('default asked')


def make(X):
    rest = settings(X, 's')
    conf = dict(rest)
    kind = X.pick('handler', ['dotted', 'colon', 'missing', 'empty', 'unknown class', 'unknown module'])
    if kind != 'missing':
        conf['handler'] = {'dotted': HANDLER, 'colon': 'harness.p33:Recorder', 'empty': '',
                           'unknown class': 'harness.p33.Missing', 'unknown module': 'harness.nothing.Recorder'}[kind]
    before = dict(conf)
    o = X.run(storage_factory, conf)
    X.note('outcome', o)
    X.check(same_map(conf, before), 'making a storage changes the configuration')
    if kind in ('dotted', 'colon'):
        X.check(o.ok, 'the handler named is not used')
        X.check(type(o.value).__name__ == 'Recorder', 'the handler named is not used')
        X.check(same_map(o.value.conf, rest), 'the handler is not given exactly the remaining settings')
        X.reach('made')
    else:
        X.check(not o.ok, 'a configuration without a usable handler is not an error')
        if kind in ('missing', 'empty'):
            X.check(o.is_exc(ConfigurationError), 'a missing handler is not a configuration error')
        X.reach('no handler')


def init(X):
    db, own, entries = table(X)
    typ = X.pick('asked', ['own', 'default', 'omitted'])
    name = own if typ == 'own' else 'default'
    if X.bool('no configuration'):
        db = None
        entries = {}
    o = X.run(init_storage, db) if typ == 'omitted' else X.run(init_storage, db, name)
    X.note('kind', o.kind)
    want = entries.get('own') if typ == 'own' else None
    if want is None:
        want = entries.get('default')
    if want is None:
        if db and typ != 'own':
            X.check(not o.ok, 'asking for a missing default entry is not an error')
            X.reach('default asked')
            return
        X.check(o.ok, 'no storage without configuration')
        X.check(not isinstance(o.value, Recorder), 'a handler is used that was not selected')
        a, b = o.value, X.run(init_storage, None, name).value
        k, v = X.str('k', minlen=1), X.str('v')
        a[k] = v
        X.check(a[k] == v, 'the plain storage does not keep what it is given')
        X.check(k not in b, 'two plain storages share their content')
        X.reach('plain')
    else:
        X.check(o.ok and isinstance(o.value, Recorder), 'the handler selected is not used')
        want.pop('handler')
        X.check(same_map(o.value.conf, want), 'the handler is not given exactly the remaining settings')
        X.reach('made')


def issuer(X):
    db, own, entries = table(X)
    iss = X.vec('issuer', 3 if X.tier == 'thorough' else 2, alphabet=' -~')
    if X.bool('marker'):
        db['abstract_storage_cls'] = 'a.b'
    for i, e in enumerate(list(db.values())):
        if isinstance(e, dict) and X.bool('entry %d has an issuer' % i):
            e['issuer'] = 'old'
    before = {k: (dict(v) if isinstance(v, dict) else v) for k, v in db.items()}
    o = X.run(add_issuer, db, iss)
    X.check(o.ok, 'adding an issuer fails')
    r = o.value
    X.check(len(r) == len(before), 'adding an issuer changes the set of entries')
    q = quote_plus(iss)
    for k, v in before.items():
        X.check(k in r, 'adding an issuer loses an entry')
        if not isinstance(v, dict):
            X.check(r[k] == v and db[k] == v, 'the name of the storage class is changed')
            continue
        X.check(same_map(db[k], v), 'adding an issuer changes the configuration it was given')
        want = dict(v)
        want['issuer'] = q
        X.check(same_map(r[k], want), 'an entry does not get the issuer in escaped form')
    X.reach('issuer')


def split(X):
    name = X.vec('name', 6)
    o = X.run(modsplit, name)
    X.note('split', o)
    colons, dots = name.count(':'), name.count('.')
    if colons > 1 or (colons == 0 and dots == 0):
        X.check(not o.ok, 'a name that does not name a class in a module is split')
        X.check(not X.run(importer, name).ok, 'a name that does not name a class in a module is imported')
        X.reach('unsplit')
        return
    X.check(o.ok, 'a name of a class in a module is not split')
    mod, cls = o.value
    sep = ':' if colons else '.'
    X.check(mod + sep + cls == name, 'a name is split into something else')
    X.check(sep not in cls, 'a name is split at the wrong place')
    X.reach('split')


def context(X):
    db, own, entries = table(X)
    marker = X.str('marker', minlen=1)
    kj = X.keyjar([('', ['me_rsa'])])
    conf = {}
    if X.bool('db_conf'):
        conf['db_conf'] = db
    else:
        entries = {}
    iss = None
    if X.bool('with issuer'):
        iss = X.vec('issuer', 1, 1, alphabet=' -~')
        conf['issuer'] = iss
    o = X.run(OidcContext, conf, keyjar=kj)
    X.check(o.ok, 'a context is not made')
    c = o.value
    X.check(c.keyjar is kj, 'the key jar given is not used')
    for n, k in (('own', own), ('default', 'default')):
        if n in entries:
            X.check(len(db[k]) == len(entries[n]), 'making a context changes the configuration')
    if 'default' in entries:
        X.check(isinstance(c.db, Recorder), 'the default entry is not used')
        want = {'id': entries['default']['id']}
        if iss is not None:
            want['issuer'] = quote_plus(iss)
        X.check(same_map(c.db.conf, want), 'the handler is not given exactly the remaining settings')
    else:
        X.check(not isinstance(c.db, Recorder), 'a handler is used that was not selected')
    k = X.str('k', minlen=1)
    X.assume(k != 'seed')
    c.set(k, marker)
    X.check(c.get(k) == marker, 'a context does not keep what it is given')
    m = Message(name=marker)
    c.set(k, m)
    X.check(same_map(c.get(k), {'name': marker}), 'a context does not keep the content of a message')
    X.reach('context')


def boxes(X):
    db, own, entries = table(X)
    c = X.run(OidcContext, {}, keyjar=X.keyjar([('', ['me_rsa'])])).value
    o = X.run(c.add_boxes, {own: 'box'}, db)
    X.check(o.ok, 'a box is not made')
    want = entries.get('own')
    if want is None:
        want = entries.get('default')
    if want is None:
        X.check(not isinstance(c.box, Recorder), 'a handler is used that was not selected')
    else:
        X.check(isinstance(c.box, Recorder) and same_map(c.box.conf, {'id': want['id']}),
                'a box is not made from its own entry')
    X.reach('kept')


CASES = {'select': select, 'make': make, 'init': init, 'issuer': issuer, 'split': split, 'context': context,
         'boxes': boxes}
