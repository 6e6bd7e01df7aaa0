"""Keys, key jars and reference tokens.  Signing here goes straight to the JOSE library."""
import base64
import hashlib
import json
import os

from cryptojwt.jwk.jwk import key_from_jwk_dict
from cryptojwt.jws.jws import JWS
from cryptojwt.key_bundle import KeyBundle
from cryptojwt.key_jar import KeyJar

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'keys.json')) as _fp:
    JWKS = json.load(_fp)

ALGS = ['HS256', 'HS384', 'HS512', 'RS256', 'RS384', 'RS512', 'PS256', 'PS384', 'PS512', 'ES256', 'ES384', 'ES512']
KEYS_FOR = {'HS': ['oct1', 'oct2', 'oct3', 'oct4'], 'RS': ['rsa1', 'rsa2', 'rsa3', 'rsa4'],
            'PS': ['rsa1', 'rsa2', 'rsa3', 'rsa4'], 'ES256': ['ec1', 'ec2', 'ec3'], 'ES384': ['ec384a', 'ec384b'],
            'ES512': ['ec521a', 'ec521b']}


def keys_for(alg):
    return KEYS_FOR.get(alg) or KEYS_FOR[alg[:2]]


def jwk(name, kid=None, private=True, use=None):
    d = dict(JWKS[name])
    if not private:
        d = {k: v for k, v in d.items() if k not in ('d', 'p', 'q', 'dp', 'dq', 'qi')}
    if kid:
        d['kid'] = kid
    if use:
        d['use'] = use
    return d


_cache = {}


def key(name, kid=None):
    if (name, kid) not in _cache:
        _cache[(name, kid)] = key_from_jwk_dict(jwk(name, kid))
    return _cache[(name, kid)]


def jar(spec, private=False, use=None):
    """spec: {issuer: [key name or (key name, kid)]}"""
    kj = KeyJar()
    for iss, names in spec.items():
        ks = []
        for n in names:
            n, kid = n if isinstance(n, (tuple, list)) else (n, None)
            ks.append(jwk(n, kid, private or n.startswith('oct'), use))
        kj.import_jwks({'keys': ks}, iss)
    return kj


def b64(b):
    if not isinstance(b, bytes):
        b = json.dumps(b).encode()
    return base64.urlsafe_b64encode(b).rstrip(b'=').decode()


def unb64(s):
    return base64.urlsafe_b64decode(s + '=' * (-len(s) % 4))


def sign(claims, name, alg, kid=None, header=None):
    """A signed token, independent of the code under test.  alg 'none' gives an unsigned one."""
    hdr = dict(header or {})
    if alg == 'none':
        hdr['alg'] = 'none'
        return '%s.%s.' % (b64(hdr), b64(claims))
    if kid:
        hdr['kid'] = kid
    body = claims if isinstance(claims, str) else json.dumps(claims)
    hdr['alg'] = alg
    signing_input = '%s.%s' % (b64(hdr), b64(body.encode()))
    from cryptojwt.jws.jws import SIGNER_ALGS
    k = key(name)
    sk = k.key if name.startswith('oct') else k.private_key()
    return '%s.%s' % (signing_input, b64(SIGNER_ALGS[alg].sign(signing_input.encode(), sk)))


def payload(token):
    return json.loads(unb64(token.split('.')[1]))


def header(token):
    return json.loads(unb64(token.split('.')[0]))


def half_hash(text, alg):
    """Left half of the hash, OpenID Connect Core 3.1.3.6."""
    d = {'256': hashlib.sha256, '384': hashlib.sha384, '512': hashlib.sha512}[alg[-3:]](text.encode('utf-8')).digest()
    return b64(d[:len(d) // 2])


assert JWS is not None and KeyBundle is not None
