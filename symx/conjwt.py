"""Concrete tokens and key jars for the replays: real keys, real signatures."""
import base64
import json
import os

_K = None


def keys():
    global _K
    if _K is None:
        from cryptojwt.jwk.jwk import key_from_jwk_dict
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'testkeys.json')) as fp:
            _K = {l: key_from_jwk_dict(d) for l, d in json.load(fp).items()}
    return _K


def keyjar(entries, later=None):
    from cryptojwt.key_jar import KeyJar
    from cryptojwt.key_bundle import KeyBundle
    kj = KeyJar()
    for owner, labels in entries:
        jw = []
        for l in labels:
            l, _, alg = l.partition('@')
            l, _, kid = l.partition('#')
            d = dict(keys()[l].serialize(private=True))
            if alg:
                d['alg'] = alg
            if kid:
                d['kid'] = kid
            jw.append(d)
        kb = KeyBundle(keys=jw)
        kj.add_kb(owner, kb)
    if later is not None:
        def update():
            kj._issuers = keyjar(later)._issuers
        kj.update = update      # stands in for fetching the keys anew
    return kj


def b64(x):
    return base64.urlsafe_b64encode(json.dumps(x).encode()).rstrip(b'=').decode()


def jwt(alg, claims, key, tampered=False):
    if alg is None or alg == 'none' or key is None:
        return b64({'alg': alg}) + '.' + b64(claims) + '.'
    from cryptojwt.jws.jws import JWS
    key, _, kid = key.partition('#')
    k = keys()[key]
    if kid:
        from cryptojwt.jwk.jwk import key_from_jwk_dict
        k = key_from_jwk_dict(dict(k.serialize(private=True), kid=kid))
    t = JWS(json.dumps(claims), alg=alg).sign_compact([k])
    if tampered:
        h, p, s = t.split('.')
        i = len(s) // 2
        t = '.'.join([h, p, s[:i] + ('A' if s[i] != 'A' else 'B') + s[i + 1:]])
    return t


def jwe(alg, enc, inner, key, tampered=False):
    from cryptojwt.jwe.jwe import JWE
    t = JWE(inner, alg=alg, enc=enc).encrypt([keys()[key]])
    if tampered:
        p = t.split('.')
        i = len(p[3]) // 2
        p[3] = p[3][:i] + ('A' if p[3][i] != 'A' else 'B') + p[3][i + 1:]
        t = '.'.join(p)
    return t
