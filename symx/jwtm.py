"""Model of the cryptojwt boundary.

A compact token is a structured document: header, claims, the key it was signed with and whether it
was tampered with afterwards. Contract assumed of cryptojwt (and cross-checked by every replay, which
uses real keys, real signatures and the real library): a signature verifies exactly with the key that
made it, over untampered content and for a key type that fits the header algorithm.
"""
import copy
import json
import types

import z3
from cryptojwt.exception import BadSignature, BadSyntax, HeaderError, IssuerNotFound
from cryptojwt.jwe import jwe as cjwe
from cryptojwt.jws import jws as cjws
from cryptojwt.exception import UnknownAlgorithm
from cryptojwt.jws.exception import NoSuitableSigningKeys, SignerAlgError
from cryptojwt import jwt as cjwt

from symx import core, rt
from symx.core import SymInt, SymStr, Unsupported
from symx.rt import model

KTY = {'RS': 'rsa', 'PS': 'rsa', 'ES': 'ec', 'HS': 'oct'}
ALGS = set(cjws.SIGNER_ALGS)


def kty(alg):
    return KTY.get(alg[:2]) if alg else None


class Key:
    def __init__(self, label):
        label, _, self.alg = label.partition('@')      # key#name@algorithm
        self.label, _, self.kid = label.partition('#')
        self.kty = self.label.split('_')[1]

    def __deepcopy__(self, m):
        return self


class SymKeyJar:
    """stands in for a key jar: which owner has which keys"""

    def __init__(self, entries, later=None):
        self.entries = [(o, [Key(l) for l in ls]) for o, ls in entries]
        self.later = later
        self.updated = 0

    def __deepcopy__(self, m):
        return self

    def _owner(self, o):
        for n, ks in self.entries:
            if rt.eq(n, o):
                return ks
        return None

    def __contains__(self, o):
        return self._owner(o) is not None

    def __len__(self):
        return len(self.entries)

    def update(self):
        self.updated += 1
        if self.later is not None:
            self.entries = [(o, [Key(l) for l in ls]) for o, ls in self.later]

    def __str__(self):
        return '<keyjar>'

    __repr__ = __str__

    def _get(self, owner, typ):
        ks = self._owner(owner)
        return [k for k in ks if not typ or k.kty == typ] if ks is not None else []

    def get_decrypt_key(self, key_type='', owner='', issuer_id='', **kw):
        return self._get(owner or issuer_id, key_type)

    def get(self, key_use, key_type='', issuer_id='', kid=None, **kw):
        if isinstance(issuer_id, SymStr):
            raise Unsupported('key owner that is not fixed')
        if issuer_id and self._owner(issuer_id) is None:
            issuer_id = issuer_id[:-1] if issuer_id.endswith('/') else issuer_id + '/'
        return self._get(issuer_id, key_type)

    def get_signing_key(self, key_type='', owner='', issuer_id='', **kw):
        return self._get(owner or issuer_id, key_type)

    def get_jwt_verify_keys(self, jwt, **kwargs):
        t = kty(jwt.headers['alg']) if jwt.headers.get('alg') else ''
        payload = jwt.payload()
        if not isinstance(payload, dict):
            raise AttributeError("'str' object has no attribute 'get'")
        iss = rt.call(payload.get, 'iss')
        if not iss:
            iss = kwargs.get('iss') or ''
        if not iss:
            iss = kwargs.get('issuer')
        if not iss:
            return self._get('', t)
        ks = self._owner(iss)
        if ks is None:
            raise IssuerNotFound(iss)
        keys = [k for k in ks if k.kty == t]
        kid = jwt.headers.get('kid', '')
        if kid:
            keys = [k for k in keys if k.kid == kid][:1]
        elif len(keys) > 1 and not kwargs.get('allow_missing_kid'):
            nki = kwargs.get('no_kid_issuer') or {}
            if any(rt.eq(o, iss) for o in nki):
                kids = [v for o, v in nki.items() if rt.eq(o, iss)][0]
                keys = [k for k in keys if not kids or k.kid in kids]
            else:
                keys = []
        if t == 'oct':
            keys = keys + self._get('', t)
        return keys


class SymJWSig:
    def __init__(self, doc):
        self.doc = doc
        self.headers = dict(doc.payload['header'])

    def payload(self):
        return copy.deepcopy(self.doc.payload['claims'])

    def __deepcopy__(self, m):
        return self


class SymJWS:
    """what cryptojwt's jws factory returns"""

    def __init__(self, doc, alg):
        self.jwt = SymJWSig(doc)
        self.alg = alg
        self.key = None

    def __getitem__(self, k):
        if k == 'alg':
            return self.alg
        raise KeyError(k)

    def __contains__(self, k):
        return k == 'alg'

    def __deepcopy__(self, m):
        return self

    def verify_compact(self, jws=None, keys=None, allow_none=False, sigalg=None):
        doc = jws if jws is not None else self.jwt.doc
        if not isinstance(doc, rt.Doc) or doc.kind != 'jws':
            raise BadSyntax('x', 'not a token')
        p = doc.payload
        if doc is not self.jwt.doc:
            self.jwt = SymJWSig(doc)
        alg = p['header']['alg']
        if alg is None or alg == 'none':
            if allow_none:
                return self.jwt.payload()
            raise SignerAlgError('none not allowed')
        if self.alg:
            if isinstance(self.alg, list):
                ok = rt.in_(alg, self.alg)
            else:
                ok = rt.eq(self.alg, alg)
            if not ok:
                raise SignerAlgError('Wrong signing algorithm')
        if sigalg and not rt.eq(sigalg, alg):
            raise SignerAlgError('Wrong signing algorithm')
        self.alg = alg
        ks = [k for k in (keys or []) if k.kty == kty(alg) and k.alg in ('', alg) and (
            not p['header'].get('kid') or k.kid == p['header']['kid'])]
        if not ks:
            raise NoSuitableSigningKeys('no key')
        for k in ks:
            if k.label == p['key'] and not p['tampered']:
                self.key = k
                return self.jwt.payload()
        raise BadSignature()

    def verify_compact_verbose(self, jws=None, keys=None, allow_none=False, sigalg=None):
        m = self.verify_compact(jws, keys, allow_none, sigalg)
        return {'msg': m, 'key': self.key}


def mkjws(header, claims, key, tampered=False):
    e = core.ENGINE
    if type(key) is str and '#' in key:
        key, _, kid = key.partition('#')
        header = dict(header, kid=kid)
    z = z3.String(e.fresh('doc_jws'))
    d = rt.Doc.__new__(rt.Doc, z)
    d.kind, d.meta = 'jws', ('doc',)
    d.payload = {'header': header, 'claims': rt.jsonable(claims), 'key': key, 'tampered': tampered}
    e.assume(z3.And(z3.PrefixOf(z3.StringVal('eyJ'), z), z3.Length(z) >= 6))
    return d


def mkjwe(header, inner, key, tampered=False):
    e = core.ENGINE
    z = z3.String(e.fresh('doc_jwe'))
    d = rt.Doc.__new__(rt.Doc, z)
    d.kind, d.meta = 'jwe', ('doc',)
    d.payload = {'header': header, 'inner': inner, 'key': key, 'tampered': tampered}
    e.assume(z3.And(z3.PrefixOf(z3.StringVal('eyJ'), z), z3.Length(z) >= 6))
    return d


def _not_token(s):
    """arbitrary text reaching a token parser: assumed not to be a token"""
    e = core.ENGINE
    e.stats.note('assumed: text given as a token that is not built as one is dot-free letters')
    e.assume(z3.InRe(s.z, z3.Plus(z3.Union(z3.Range('A', 'H'), z3.Range('a', 'e')))))


def _text(x):
    return x.s if isinstance(x, rt.SymBytes) else x


@model(cjws.factory)
def _(token, alg=''):
    token = _text(token)
    if isinstance(token, rt.Doc):
        if token.kind == 'jws':
            d = token.payload
            if d['header'].get('alg', 0) is None:
                d['header']['alg'] = 'none'
            if d['header'].get('alg') not in ALGS:
                return None
            return SymJWS(token, alg)
        if token.kind == 'json':
            if isinstance(token.payload, dict) and not rt.has_sym_key(token.payload) and not (
                    'payload' in token.payload):
                return None
            raise Unsupported('JSON serialised JWS')
        if token.kind == 'jwe':
            return None
        return NotImplemented
    if isinstance(token, SymStr):
        _not_token(token)
        return None
    return cjws.factory(token, alg)   # not a text: the real thing does not get past the type


class SymJWE:
    def __init__(self, doc):
        self.doc = doc
        self.jwt = types.SimpleNamespace(headers=dict(doc.payload['header']))

    def __deepcopy__(self, m):
        return self

    def decrypt(self, token=None, keys=None, *a, **k):
        p = (token if token is not None else self.doc).payload
        for key in keys or []:
            if key.label == p['key'] and not p['tampered']:
                i = p['inner']
                return i.encode() if type(i) is str else rt.SymBytes(i)
        from cryptojwt.jwe.exception import NoSuitableDecryptionKey, JWEException
        if not keys:
            raise NoSuitableDecryptionKey('no key')
        raise JWEException('decryption failed')


@model(cjwe.factory)
def _(token, alg='', enc=''):
    token = _text(token)
    if isinstance(token, rt.Doc):
        if token.kind in ('jws', 'jwe'):
            h = token.payload['header']
            if alg and not rt.eq(h['alg'], alg):
                raise HeaderError('alg')
            if token.kind == 'jws':
                return None
            if enc and not rt.eq(h['enc'], enc):
                raise HeaderError('enc')
            return SymJWE(token)
        if token.kind == 'json':
            raise BadSyntax('x', 'not a token')
        return NotImplemented
    if isinstance(token, SymStr):
        _not_token(token)
        raise BadSyntax('x', 'not a token')
    return cjwe.factory(token, alg, enc)


class SymSigner:
    def __init__(self, msg, alg):
        self.msg, self.alg = msg, alg

    def sign_compact(self, keys=None, protected=None, **kw):
        alg = self.alg
        claims = json_of(self.msg)
        if not alg or alg == 'none':
            alg = 'none'
            return mkjws({'alg': 'none'}, claims, None)
        ks = [k for k in keys or [] if k is not None and k.kty == kty(alg)]
        if not ks:
            raise NoSuitableSigningKeys('no key')
        if alg not in ALGS:
            raise UnknownAlgorithm(alg)
        return mkjws({'alg': alg}, claims, ks[0].label)


def json_of(doc):
    if isinstance(doc, rt.Doc) and doc.kind == 'json':
        return copy.deepcopy(doc.payload)
    if isinstance(doc, str) and not isinstance(doc, SymStr):
        return json.loads(doc)
    raise Unsupported('payload of a token')


@model(cjws.JWS)
def _(msg=None, with_digest=False, httpc=None, **kw):
    if isinstance(msg, rt.Doc) or (type(msg) is str and core.ENGINE is not None):
        return SymSigner(msg, kw.get('alg', ''))
    return NotImplemented


ENC_KTY = {'RSA-OAEP': 'rsa', 'RSA1_5': 'rsa', 'RSA-OAEP-256': 'rsa', 'ECDH-ES': 'ec',
           'ECDH-ES+A128KW': 'ec', 'ECDH-ES+A256KW': 'ec'}
ENCS = ('A128CBC-HS256', 'A192CBC-HS384', 'A256CBC-HS512', 'A128GCM', 'A192GCM', 'A256GCM')


class SymEnc:
    """cryptojwt's JWE: what was encrypted for a key is read back with that key only"""

    def __init__(self, msg, alg, enc):
        self.msg, self.alg, self.enc = msg, alg, enc

    def encrypt(self, keys=None, cek='', iv='', **kw):
        if self.alg not in ENC_KTY or self.enc not in ENCS:
            raise Unsupported('encryption algorithm')
        from cryptojwt.jwe.exception import NoSuitableEncryptionKey
        ks = [k for k in keys or [] if k.kty == ENC_KTY[self.alg]]
        if not ks:
            raise NoSuitableEncryptionKey(self.alg)
        return mkjwe({'alg': self.alg, 'enc': self.enc}, self.msg, ks[0].label)

    def decrypt(self, token=None, keys=None, alg=None, cek=None):
        token = _text(token)
        if not isinstance(token, rt.Doc) or token.kind != 'jwe':
            if isinstance(token, SymStr):
                if not isinstance(token, rt.Doc):
                    _not_token(token)
                raise BadSyntax('x', 'not a token')
            raise Unsupported('decrypting something else')
        t = ENC_KTY.get(token.payload['header']['alg'])
        return SymJWE(token).decrypt(token, [k for k in keys or [] if k.kty == t])


@model(cjwe.JWE)
def _(msg=None, with_digest=False, httpc=None, **kw):
    if core.ENGINE is None:
        return NotImplemented
    return SymEnc(msg, kw.get('alg', ''), kw.get('enc', ''))


def _uuid():
    e = core.ENGINE
    z = z3.String(e.fresh('uuid'))
    e.assume(z3.Length(z) == 32)
    v = SymStr(z)
    v.meta = ('opaque',)
    return v


class SymJWT:
    """cryptojwt's JWT, as far as making (signed) tokens goes"""

    def __init__(self, key_jar=None, iss='', lifetime=0, sign=True, sign_alg='RS256', encrypt=False, **kw):
        if encrypt or kw:
            raise Unsupported('JWT options')
        self.key_jar, self.iss, self.lifetime, self.sign, self.alg = key_jar, iss, lifetime, sign, sign_alg
        self.with_jti = False

    def pack(self, payload=None, kid='', issuer_id='', recv='', aud=None, **kw):
        if aud or kid or kw.get('encrypt'):
            raise Unsupported('JWT.pack options')
        args = {}
        if payload is not None:
            rt.call(args.update, payload)
        from symx import tm
        n = tm.now_us()
        if n is None:
            raise Unsupported('no clock')
        iat = SymInt(z3.simplify(n / 1000000))
        args['iss'], args['iat'] = self.iss, iat
        if self.lifetime:
            args['exp'] = iat + self.lifetime
        if recv:
            args['aud'] = [recv]
        if self.with_jti:
            args['jti'] = kw['jti'] if 'jti' in kw else _uuid()
        issuer_id = issuer_id or self.iss
        if not self.sign:
            return rt.call(json.dumps, args)
        ks = None
        if self.alg != 'none':
            own = self.key_jar.get('sig', issuer_id=issuer_id)
            if issuer_id != '':
                own = own + self.key_jar.get('sig', issuer_id='')
            ks = [k for k in own if self.alg and k.kty == kty(self.alg) and not (
                k.kty == 'ec' and self.alg[2:] != '256')]
            if not ks:
                raise NoSuitableSigningKeys('kid=')
            ks = ks[:1]
        return SymSigner(rt.call(json.dumps, args), self.alg).sign_compact(ks)


@model(cjwt.JWT)
def _(*a, **kw):
    if core.ENGINE is None:
        return NotImplemented
    return SymJWT(*a, **kw)


# -- key jars the code makes itself (the model is plain Python, run like the code under test)
import cryptojwt  # noqa
from cryptojwt.key_jar import init_key_jar as _init_key_jar  # noqa


@model(cryptojwt.KeyJar)
def _made_keyjar(*a, **k):
    from harness import kjmodel
    return kjmodel.KeyJar(*a, **k)


@model(_init_key_jar)
def _made_from_conf(*a, **k):
    from harness import kjmodel
    return kjmodel.init_key_jar(*a, **k)
