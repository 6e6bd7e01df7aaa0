"""Messages signed and/or encrypted and unpacked again, all algorithms, against the content put in and an independent
reader of the compact serialization."""
import copy

from hypothesis import strategies as st

import msgs
import tok
import valid
import vf
from checks import M02
from vf import Target

RULE = 'a case is non-trivial if the message has a parameter; distinct by class, content, algorithm and keys'
ASSUMPTIONS = ['without a key id the issuer has one key of the type in question, or missing key ids are allowed',
               'signing and encryption themselves are those of the JOSE library; direct encryption is not supported by it']
ISSUERS = ['https://op.example.org', 'https://op.example.org/', 'rp', 'https://x.example.com:8443/a b', 'åäö']
OTHERS = ['rsa4', 'ec3', 'oct4', 'ec384b', 'ec521b']
ENC_ALGS = ['RSA-OAEP', 'RSA-OAEP-256', 'RSA1_5', 'ECDH-ES', 'ECDH-ES+A128KW', 'ECDH-ES+A192KW', 'ECDH-ES+A256KW',
            'A128KW', 'A192KW', 'A256KW']
ENCS = ['A128CBC-HS256', 'A192CBC-HS384', 'A256CBC-HS512', 'A128GCM', 'A192GCM', 'A256GCM']


@st.composite
def content(draw):
    key, params, how, indent = draw(M02.case())
    params.pop('iss', None)
    if key.endswith(':IdToken'):
        for p in ('access_token', 'code'):
            params.pop(p, None)
    iss = draw(st.sampled_from(ISSUERS + [None]))
    if iss:
        params['iss'] = iss
    return key, params, iss


@st.composite
def keysetup(draw, alg, iss):
    """(signing key, its key id, {owner: keys}, from_jwt arguments)"""
    name = draw(st.sampled_from(tok.keys_for(alg)))
    kid = draw(st.sampled_from([None, 'k1', 'a/b', 'å']))
    kw = {}
    ring = [(name, kid)]
    if kid:
        for i, n in enumerate(draw(st.lists(st.sampled_from(OTHERS + tok.keys_for(alg)), max_size=3))):
            if n != name:
                ring.append((n, 'decoy%d' % i))
    elif iss is None or draw(st.booleans()):
        # several keys of the same type and no key id
        more = [n for n in tok.keys_for(alg) if n != name and not alg.startswith('ES')]
        if more:
            ring.append((draw(st.sampled_from(more)), None))
            kw['allow_missing_kid'] = True
    ring = draw(st.permutations(ring))
    owners = {iss or '': ring}
    if iss and draw(st.booleans()):
        owners['https://other.example.net'] = [(n, 'k1') for n in OTHERS]
    demanded = draw(st.sampled_from([None, None, alg, alg, '']))
    if demanded is not None:
        kw['sigalg'] = demanded         # an empty demand is none
    return name, kid, owners, kw


@st.composite
def signed(draw):
    key, params, iss = draw(content())
    alg = draw(st.sampled_from(tok.ALGS + ['none']))
    if alg == 'none':
        kw = draw(st.sampled_from([{}, {'sigalg': 'none'}, {'sigalg': ''}, {'sigalg': None}]))
        return key, params, alg, None, None, {iss or '': []}, kw
    return (key, params, alg) + draw(keysetup(alg, iss))


def compare(rec, c, m2, want, token, alg):
    rec.check(type(m2) is msgs.cls_of(c[0]), 'class')
    rec.check(msgs.same(msgs.plain(m2), want), '%s %s came out as %r, went in as %r', c[0], alg, msgs.plain(m2), want)
    rec.eq(m2.jwt, token, 'recorded token')
    rec.eq(m2.jws_header, tok.header(token), 'recorded signature header')
    rec.eq(m2.jws_header['alg'], alg, 'recorded algorithm')


def make(key, params, alg, name, kid, rec):
    """-> (token, expected content)"""
    m = msgs.build(key, copy.deepcopy(params))
    want = dict(params)
    vf.clock.set(valid.NOW, 999999999)
    try:
        token = m.to_jwt(key=[tok.key(name, kid)] if name else [], algorithm=alg)
    finally:
        vf.clock.real()
    if key.endswith(':IdToken'):
        want['iat'] = valid.NOW
    rec.check(msgs.same(tok.payload(token), msgs.build(key, copy.deepcopy(want)).to_dict()),
              'payload %r of a message with %r', tok.payload(token), want)
    h = tok.header(token)
    rec.eq(h['alg'], alg, 'algorithm in the header')
    if kid:
        rec.eq(h.get('kid'), kid, 'key id in the header')
    if name is None:
        rec.eq(token.split('.')[2], '', 'signature part of an unsigned token')
    return token, want


def sign_verify(c, rec):
    key, params, alg, name, kid, owners, kw = c
    token, want = make(key, params, alg, name, kid, rec)
    cls = msgs.cls_of(key)
    for kj in (tok.jar(owners), tok.jar(owners, private=True)):
        m2 = cls(set_defaults=False)
        r = m2.from_jwt(token, kj, **kw)
        rec.check(r is m2, 'from_jwt returns something else')
        rec.check(m2.jwe_header is None, 'an encryption header without encryption')
        compare(rec, c, m2, want, token, alg)
    m3 = cls(set_defaults=False).deserialize(token, 'jwt', keyjar=kj, **kw)
    compare(rec, c, m3, want, token, alg)
    m4 = cls(set_defaults=False).from_jwt(token, None, verify=False)
    compare(rec, c, m4, want, token, alg)
    rec.cls(alg)
    if params:
        rec.nontrivial()


def enc_key(draw, alg):
    if alg.startswith('RSA'):
        return draw(st.sampled_from(['rsa1', 'rsa2', 'rsa3']))
    if alg.startswith('ECDH'):
        return draw(st.sampled_from(['ec1', 'ec2', 'ec384a', 'ec521a']))
    return 'oct-' + alg


@st.composite
def encrypted(draw):
    key, params, iss = draw(content())
    ealg, enc = draw(st.sampled_from(ENC_ALGS)), draw(st.sampled_from(ENCS))
    ename, ekid = enc_key(draw, ealg), draw(st.sampled_from([None, 'e1']))
    alg = draw(st.sampled_from(tok.ALGS + [None, 'none']))
    if alg in (None, 'none'):
        return key, params, alg, None, None, {}, {}, ealg, enc, ename, ekid
    return (key, params, alg) + draw(keysetup(alg, iss)) + (ealg, enc, ename, ekid)


def oct_enc(alg, kid):
    from cryptojwt.jwk.hmac import SYMKey
    n = {'A128KW': 16, 'A192KW': 24, 'A256KW': 32}[alg]
    return SYMKey(key=bytes(range(n)), use='enc', **({'kid': kid} if kid else {}))


def encrypt(c, rec):
    key, params, alg, name, kid, owners, kw, ealg, enc, ename, ekid = c
    from cryptojwt.jwe.jwe import JWE
    from cryptojwt.jwk.jwk import key_from_jwk_dict
    if ename.startswith('oct-'):
        pub = priv = oct_enc(ealg, ekid)
    else:
        priv = key_from_jwk_dict(tok.jwk(ename, ekid))
        pub = key_from_jwk_dict(tok.jwk(ename, ekid, private=False))
    cls = msgs.cls_of(key)
    if alg is None:
        m = msgs.build(key, copy.deepcopy(params))
        token = m.to_jwe([pub], enc=enc, alg=ealg)
        h = tok.header(token)
        rec.eq((h['alg'], h['enc'], len(token.split('.'))), (ealg, enc, 5), 'header of the encrypted message')
        m2 = cls(set_defaults=False).from_jwe(token, [priv])
        rec.check(type(m2) is cls, 'class')
        rec.check(msgs.same(msgs.plain(m2), params), '%s %s %s came out as %r, went in as %r', key, ealg, enc,
                  msgs.plain(m2), params)
        rec.check(msgs.same(msgs.plain(m), params), 'encrypting changed the message')
        rec.cls('encrypted only')
        rec.cls('%s' % ealg)
        rec.cls(enc)
    else:
        inner, want = make(key, params, alg, name, kid, rec)
        token = JWE(inner, alg=ealg, enc=enc, cty='JWT').encrypt([pub])
        m2 = cls(set_defaults=False)
        kj = tok.jar(owners, use='sig')
        from cryptojwt.key_bundle import KeyBundle
        kb = KeyBundle()
        priv.use = 'enc'
        kb.append(priv)
        kj.add_kb('', kb)
        ekw = dict(kw)
        if len(token) % 2:
            ekw.update(encalg=ealg, encenc=enc)
        m2.from_jwt(token, kj, **ekw)
        compare(rec, c, m2, want, inner, alg)
        rec.eq((m2.jwe_header['alg'], m2.jwe_header['enc']), (ealg, enc), 'recorded encryption header')
        rec.eq(m2.jwe_header, tok.header(token), 'recorded encryption header')
        rec.cls('signed and encrypted')
        rec.cls('%s' % ealg)
        rec.cls(enc)
    if params:
        rec.nontrivial()


TARGETS = [Target('sign and unpack', signed(), sign_verify, quick=2000, thorough=60000),
           Target('encrypt and unpack', encrypted(), encrypt, quick=500, thorough=15000)]
