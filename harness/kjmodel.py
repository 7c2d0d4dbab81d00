"""What is assumed of cryptojwt's key jar (symbolic runs only; the replays use the real one).

An owner has bundles of keys; the jar keeps the owners in the storage it is given, by way of get/set
only; importing a JWKS adds a bundle and takes the 'use' out of the descriptions it is given;
exporting describes the active keys; a file named is read as the JWKS it holds.
"""
import json
import os


class Key:
    def __init__(self, use, kid, k):
        self.use = use
        self.kid = kid
        self.k = k
        self.kty = 'oct'
        self.inactive_since = 0

    def serialize(self, private=False):
        out = {'kty': 'oct', 'kid': self.kid}
        if self.use:
            out['use'] = self.use
        if private:
            out['k'] = self.k
        return out


class KeyBundle:
    def __init__(self, keys=None, **kwargs):
        self._keys = []
        for d in (keys or []):
            if d['kty'] != 'oct':
                raise NotImplementedError('key type outside the model')
            use = d.pop('use', '')
            self._keys.append(Key(use, d['kid'], d['k']))

    def keys(self):
        return list(self._keys)

    def __len__(self):
        return len(self._keys)


class KeyIssuer:
    def __init__(self, name=''):
        self.name = name
        self._bundles = []
        self.httpc_params = {}

    def snapshot(self):
        out = KeyIssuer(self.name)
        for b in self._bundles:
            n = KeyBundle()
            for k in b.keys():
                c = Key(k.use, k.kid, k.k)
                c.inactive_since = k.inactive_since
                n._keys.append(c)
            out._bundles.append(n)
        return out

    def add(self, item):
        self._bundles.append(item)
        return self

    add_kb = add

    def set(self, items):
        self._bundles = items

    def get_bundles(self):
        return list(self._bundles)

    def __getitem__(self, i):
        return self._bundles[i]

    def __iter__(self):
        return iter(self._bundles)

    def __len__(self):
        return len(self._bundles)

    def all_keys(self):
        out = []
        for b in self._bundles:
            out.extend(b.keys())
        return out


class KeyJar:
    def __init__(self, ca_certs=None, verify_ssl=True, keybundle_cls=KeyBundle, remove_after=3600, httpc=None,
                 httpc_params=None, storage=None):
        self._issuers = {} if storage is None else storage
        self.ca_certs = ca_certs
        self.keybundle_cls = keybundle_cls
        self.remove_after = remove_after
        self.httpc = httpc
        self.httpc_params = httpc_params or {'verify': verify_ssl}

    def return_issuer(self, issuer_id):
        i = self._issuers.get(issuer_id)
        if i is None:
            i = KeyIssuer(issuer_id)
            self._issuers[issuer_id] = i
        return i

    def __contains__(self, issuer_id):
        return self._issuers.get(issuer_id) is not None

    def __getitem__(self, issuer_id=''):
        i = self._issuers.get(issuer_id)
        if i is None:
            raise KeyError(issuer_id)
        return i

    def __setitem__(self, issuer_id, issuer):
        self._issuers[issuer_id] = issuer

    def set(self, issuer_id, issuer):
        self[issuer_id] = issuer

    def __delitem__(self, issuer_id):
        del self._issuers[issuer_id]

    def owners(self):
        return list(self._issuers.keys())

    def __len__(self):
        return len(self.owners())

    def get_issuer_keys(self, issuer_id):
        return self[issuer_id].all_keys()

    def add_kb(self, issuer_id, kb):
        i = self.return_issuer(issuer_id)
        i.add_kb(kb)
        self[issuer_id] = i

    def load_keys(self, issuer_id, jwks_uri='', jwks=None, replace=False):
        i = self.return_issuer(issuer_id)
        if replace:
            i.set([])
        if jwks_uri:
            raise NotImplementedError('keys from the network')
        if jwks:
            i.add_kb(KeyBundle(jwks['keys']))
        self[issuer_id] = i

    def import_jwks(self, jwks, issuer_id):
        if 'keys' not in jwks:
            raise ValueError('Not a proper JWKS')
        if jwks['keys']:
            i = self.return_issuer(issuer_id)
            i.add(KeyBundle(jwks['keys']))
            self[issuer_id] = i

    def import_jwks_as_json(self, jwks, issuer_id):
        return self.import_jwks(json.loads(jwks), issuer_id)

    def export_jwks(self, private=False, issuer_id='', usage=None):
        i = self._issuers.get(issuer_id)
        out = []
        if i is not None:
            for b in i:
                for k in b.keys():
                    if k.inactive_since == 0 and (usage is None or k.use == usage):
                        out.append(k.serialize(private))
        return {'keys': out}

    def export_jwks_as_json(self, private=False, issuer_id=''):
        return json.dumps(self.export_jwks(private, issuer_id))

    def get(self, key_use, key_type='', issuer_id='', kid=None, **kwargs):
        i = self._issuers.get(issuer_id)
        if i is None:
            return []
        return [k for k in i.all_keys() if (not key_type or key_type.lower() == 'oct')
                and (not kid or k.kid == kid) and (not k.use or k.use == key_use)]


MADE = []


def read(path):
    with open(path) as fp:
        return json.loads(fp.read())


def init_key_jar(public_path='', private_path='', key_defs='', issuer_id='', read_only=True, storage=None):
    i = KeyIssuer()
    path = private_path or public_path
    if path and os.path.isfile(path):
        i.add(KeyBundle(read(path)['keys']))
    elif key_defs:
        b = KeyBundle()
        for d in key_defs:
            if d['type'] != 'oct':
                raise NotImplementedError('key type outside the model')
            for use in d['use']:
                MADE.append(1)
                b._keys.append(Key(use, d['kid'] if 'kid' in d else 'made%d' % len(MADE), 'made%d' % len(MADE)))
        i.add(b)
    else:
        raise ValueError('Could not find any keys')
    jar = KeyJar(storage=storage)
    jar[issuer_id] = i
    return jar
