"""Forgeries derived from valid signed tokens; each valid token is first shown to be accepted under the same key jar."""
import copy
import json

from hypothesis import strategies as st

import gen
import msgs
import tok
from checks import J01
from vf import Target, outcome

RULE = ('every case is a forgery (or a key jar without the right key) whose genuine counterpart is accepted in the same '
        'case; distinct by token and forgery')
ASSUMPTIONS = ['unsigned (alg none, or null, which the JOSE library takes for none) tokens are not signed tokens; they are refused here only when an algorithm is demanded',
               'secrets the receiver holds as its own verify tokens of any issuer (they are shared with the sender)',
               'alterations that leave every decoded part of the token as it was are not counted as alterations']
A, B = 'https://a.example.org', 'https://b.example.org'
CLASSES = ['message:Message', 'oidc:IdToken', 'oidc:JsonWebToken', 'oidc.session:LogoutToken',
           'oidc:OpenIDRequest', 'oauth2:AuthorizationRequest', 'oidc:OpenIDSchema', 'oidc:AuthnToken']
B64 = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_'


@st.composite
def case(draw):
    key = draw(st.sampled_from(CLASSES))
    alg = draw(st.sampled_from(tok.ALGS))
    names = tok.keys_for(alg)
    signer = draw(st.sampled_from(names))
    other = draw(st.sampled_from([n for n in names if n != signer]))
    kid = draw(st.sampled_from(['k1', 'k1', None]))
    claims = draw(st.dictionaries(st.sampled_from(['sub', 'nonce', 'x', 'name', 'iat', 'jti', 'acr']), st.sampled_from(
        ['v', 'w', 'åäö', '1', 'x' * 40]), max_size=4))
    claims.pop('iat', None)
    if draw(st.booleans()):
        claims['iat'] = 1700000000
    claims['iss'] = draw(st.sampled_from([A, A, A, None]))
    if claims['iss'] is None:
        del claims['iss']
    decoys = draw(st.booleans()) if kid else False
    how = draw(st.sampled_from(FORGE))
    n1, n2 = draw(st.integers(0, 5000)), draw(st.integers(0, 5000))
    # arguments of the call that say nothing about which keys count for this token
    more = draw(st.fixed_dictionaries({}, optional={
        'sender': st.sampled_from([B, B, A, '']), 'client_id': st.just('client1'), 'verify': st.just(True),
        'allow_missing_kid': st.just(False), 'no_kid_issuer': st.sampled_from([{}, {B: []}, {B: ['k1']}]),
        'opponent_id': st.just(B), 'aud': st.just(B)}))
    if claims.get('iss'):
        for n in draw(st.sets(st.sampled_from(['iss', 'issuer']))):
            more[n] = B
    return key, alg, signer, other, kid, claims, decoys, draw(st.booleans()), how, n1, n2, more


def flip(token, part, n1, n2):
    ps = token.split('.')
    p = ps[part]
    i = n1 % len(p)
    ps[part] = p[:i] + B64[(B64.index(p[i]) + 1 + n2 % 63) % 64] + p[i + 1:]
    return '.'.join(ps)


def same_bytes(a, b):
    def dec(t):
        r = []
        for p in t.split('.'):
            try:
                r.append(tok.unb64(p))
            except ValueError:
                return None
        return r
    return dec(a) == dec(b) and dec(a) is not None


def forged(c, token):
    """-> (forged token, from_jwt arguments, key jar spec or None to keep)"""
    key, alg, signer, other, kid, claims, decoys, viades, how, n1, n2, more = c
    h, p, s = token.split('.')
    iss = claims.get('iss')
    if how == 'flip header':
        return flip(token, 0, n1, n2), {}, None
    if how == 'flip payload':
        return flip(token, 1, n1, n2), {}, None
    if how == 'flip signature':
        return flip(token, 2, n1, n2), {}, None
    if how == 'bit of the signature':
        b = bytearray(tok.unb64(s))
        b[n1 % len(b)] ^= 1 << (n2 % 8)
        return '%s.%s.%s' % (h, p, tok.b64(bytes(b))), {}, None
    if how == 'cut signature':
        b = tok.unb64(s)
        return '%s.%s.%s' % (h, p, tok.b64(b[:n1 % len(b)])), {}, None
    if how == 'longer signature':
        b = tok.unb64(s)
        return '%s.%s.%s' % (h, p, tok.b64(b + b'\0' * (1 + n1 % 3))), {}, None
    if how == 'empty signature':
        return '%s.%s.' % (h, p), {}, None
    if how == 'zero signature':
        return '%s.%s.%s' % (h, p, tok.b64(b'\0' * len(tok.unb64(s)))), {}, None
    if how == 'no signature part':
        return '%s.%s' % (h, p), {}, None
    if how == 'four parts':
        return token + '.' + s, {}, None
    if how == 'changed claim':
        cl = dict(claims)
        cl['sub'] = str(cl.get('sub', '')) + 'x'
        return '%s.%s.%s' % (h, tok.b64(cl), s), {}, None
    if how == 'added claim':
        return '%s.%s.%s' % (h, tok.b64(dict(claims, admin=True)), s), {}, None
    if how == 'signature of another token':
        t2 = tok.sign(dict(claims, sub='another%d' % n1), signer, alg, kid)
        return '%s.%s.%s' % (h, p, t2.split('.')[2]), {}, None
    if how == 'payload of another token':
        t2 = tok.sign(dict(claims, sub='another%d' % n1), signer, alg, kid)
        return '%s.%s.%s' % (h, t2.split('.')[1], s), {}, None
    if how == 'added header':
        hd = tok.header(token)
        hd['x'] = n1
        return '%s.%s.%s' % (tok.b64(hd), p, s), {}, None
    if how == 'other algorithm in the header':
        algs = [a for a in tok.ALGS if a != alg]
        hd = tok.header(token)
        hd['alg'] = algs[n1 % len(algs)]
        return '%s.%s.%s' % (tok.b64(hd), p, s), {}, None
    if how == 'unknown algorithm':
        hd = tok.header(token)
        hd['alg'] = ['None', 'NONE', 'nOnE', 'none ', '', 'HS1', 'RS', 'foo', 'hs256', 'NULL', 'nULL', 0][n1 % 12]
        return '%s.%s.%s' % (tok.b64(hd), p, ['', s][n2 % 2]), {}, None
    if how == 'no algorithm':
        hd = tok.header(token)
        del hd['alg']
        return '%s.%s.%s' % (tok.b64(hd), p, ['', s][n2 % 2]), {}, None
    if how == 'unsigned when signature demanded':
        sa = [alg, tok.ALGS[n1 % len(tok.ALGS)]][n1 % 2]
        return [tok.sign(claims, None, 'none'), json.dumps(claims), tok.sign(claims, None, 'none') + s][n2 % 3], \
            {'sigalg': sa}, None
    if how == 'another algorithm demanded':
        algs = [a for a in tok.ALGS if a != alg]
        return token, {'sigalg': algs[n1 % len(algs)]}, None
    if how == 'another key':
        return tok.sign(claims, other, alg, kid), {}, None
    if how == 'another key of another issuer':
        return tok.sign(claims, other, alg, ['k1', kid][n1 % 2]), {}, 'B holds other'
    if how == 'claiming another issuer':
        return tok.sign(dict(claims, iss=B), signer, alg, kid), {}, 'B holds other'
    if how == 'own keys of the receiver':
        if iss and not alg.startswith('HS'):
            return tok.sign(claims, other, alg, kid), {}, 'own holds other'
        return tok.sign(claims, other, alg, kid), {}, None
    if how == 'symmetric use of a public key':
        return symmetric(n1, n2, claims, kid), {}, 'rsa and ec only'
    if how == 'key in the header':
        hd = {'jwk': tok.jwk(other, private=other.startswith('oct')), 'alg': alg}
        if n1 % 2:
            hd['jwk']['kid'] = 'k1'
        return tok.sign(claims, other, alg, kid, hd), {}, None
    if how == 'key url in the header':
        return tok.sign(claims, other, alg, kid, {'jku': 'https://evil.example.net/jwks.json'}), {}, None
    if how == 'certificate in the header':
        return tok.sign(claims, other, alg, kid, {'x5c': ['MIIB'], 'x5t': 'abc', 'x5u': 'https://evil.example.net/'}), \
            {}, None
    if how == 'JSON serialization':
        doc = {'payload': p, 'signatures': [{'protected': h, 'signature': s[::-1]}]}
        if n1 % 2:
            doc = {'payload': p, 'protected': h, 'signature': s[::-1]}
        return json.dumps(doc), {'sigalg': alg} if n2 % 2 else {'sigalg': alg}, None
    if how == 'no key jar':
        return token, {}, 'None'
    if how == 'empty key jar':
        return token, {}, 'empty'
    if how == 'issuer unknown':
        return token, {}, 'unknown'
    if how == 'issuer without such keys':
        return token, {}, 'other types'
    if how == 'other key id only':
        return tok.sign(claims, other, alg, 'k9'), {}, None
    if how == 'key by no id':
        # several candidates and no key id: nothing identifies the key
        return tok.sign(claims, other, alg, None), {}, None
    raise AssertionError(how)


FORGE = ['flip header', 'flip payload', 'flip payload', 'flip signature', 'flip signature', 'bit of the signature',
         'cut signature', 'longer signature', 'empty signature', 'zero signature', 'no signature part', 'four parts',
         'changed claim', 'added claim', 'signature of another token', 'payload of another token', 'added header',
         'other algorithm in the header', 'unknown algorithm', 'no algorithm', 'unsigned when signature demanded',
         'another algorithm demanded', 'another key', 'another key of another issuer', 'claiming another issuer',
         'own keys of the receiver', 'symmetric use of a public key', 'key in the header', 'key url in the header',
         'certificate in the header', 'JSON serialization', 'no key jar', 'empty key jar', 'issuer unknown',
         'issuer without such keys', 'other key id only', 'key by no id']


def symmetric(n1, n2, claims, kid):
    """An HS token whose secret is a public key of the issuer in one form or another."""
    import hashlib
    import hmac
    from cryptography.hazmat.primitives import serialization as ser
    name = ['rsa1', 'ec1'][n1 % 2]
    pub = tok.key(name).public_key()
    P, E = ser.PublicFormat, ser.Encoding
    forms = [pub.public_bytes(E.PEM, P.SubjectPublicKeyInfo), pub.public_bytes(E.DER, P.SubjectPublicKeyInfo),
             json.dumps(tok.jwk(name, 'k1', private=False)).encode(), tok.JWKS['rsa1']['n'].encode(),
             tok.unb64(tok.JWKS['rsa1']['n']), tok.JWKS['rsa1']['e'].encode(), b'', b'None', b'k1']
    secret = forms[n2 % len(forms)]
    n = ['256', '384', '512'][n1 % 3]
    hd = {'alg': 'HS' + n}
    if kid:
        hd['kid'] = kid
    si = '%s.%s' % (tok.b64(hd), tok.b64(claims))
    return si + '.' + tok.b64(hmac.new(secret, si.encode(), getattr(hashlib, 'sha' + n)).digest())


def check(c, rec):
    key, alg, signer, other, kid, claims, decoys, viades, how, n1, n2, more = c
    iss = claims.get('iss')
    if how == 'claiming another issuer' and iss is None and alg.startswith('HS'):
        return              # the receiver's own secrets count whoever the issuer is
    cls = msgs.cls_of(key)
    ring = [(signer, kid)]
    if decoys:
        ring += [(n, 'd%d' % i) for i, n in enumerate(['rsa3', 'ec3', 'oct3', 'ec384b']) if n != signer and n != other]
    spec = {iss or '': ring}
    if more.get('sender'):
        rec.cls('sender named')
    token = tok.sign(claims, signer, alg, kid)
    good = outcome(cls(set_defaults=False).from_jwt, token, tok.jar(spec), **more)
    rec.check(good[0] == 'ok' and len(good[1]) == len(claims), 'the genuine token is refused: %r', good[1])
    bad, kw, jarspec = forged(c, token)
    kw = dict(more, **kw)
    spec = copy.deepcopy(spec)
    if jarspec == 'B holds other':
        spec[B] = [(other, 'k1')]
    elif jarspec == 'own holds other':
        spec[''] = [(other, kid)]
    elif jarspec == 'rsa and ec only':
        spec = {iss or '': [('rsa1', kid), ('ec1', kid)]}
    elif jarspec == 'empty':
        spec = {}
    elif jarspec == 'unknown':
        spec = {B: ring}
        if iss:
            spec[iss + '/'] = ring
            spec[iss[:-1]] = ring
    elif jarspec == 'other types':
        spec[iss or ''] = [(n, kid) for n in ('rsa2', 'ec2', 'oct2') if n[:2] != signer[:2]]
    kj = None if jarspec == 'None' else tok.jar(spec)
    if bad == token and kw == more and jarspec is None:
        return
    if how in ('flip header', 'flip payload', 'flip signature', 'cut signature') and same_bytes(bad, token):
        rec.cls('nothing altered')
        return
    m = cls(set_defaults=False)
    if viades:
        o = outcome(m.deserialize, bad, 'jwt', keyjar=kj, **kw)
    else:
        o = outcome(m.from_jwt, bad, kj, **kw)
    rec.check(o[0] == 'exc', '%s: token accepted with %r', how, o[1])
    rec.check(len(m) == 0 and m.to_dict() == {}, '%s: content left behind: %r', how, m.to_dict())
    rec.check(m.jws_header is None, '%s: signature header recorded: %r', how, m.jws_header)
    rec.cls(how)
    rec.nontrivial()


# ---------------------------------------------------------------------- inside an encrypted token
WRONG = [None] * 3 + ['another encryption algorithm demanded', 'another content encryption demanded',
                      'both demanded, one of them wrong', 'to another key', 'no key to decrypt with', 'altered', 'altered',
                      'swapped part', 'signed by another key', 'altered before encryption', 'claiming another issuer',
                      'not encrypted although demanded', 'issuer unknown', 'header in a claim']
WHO = ['message:Message', 'oidc:IdToken', 'oidc:AuthorizationRequest', 'oidc:OpenIDRequest',
       'oauth2:JWTSecuredAuthorizationRequest', 'oauth2:PushedAuthorizationRequest', 'oidc.session:BackChannelLogoutRequest']
REQUEST = {'client_id': 'client1', 'response_type': 'code', 'scope': 'openid', 'redirect_uri': 'https://rp/'}
LOGOUT = {'sub': 's', 'aud': ['client1'], 'iat': 1700000000, 'jti': 'j',
          'events': {'http://schemas.openid.net/event/backchannel-logout': {}}}


@st.composite
def wrapped(draw):
    alg = draw(st.sampled_from(tok.ALGS))
    names = tok.keys_for(alg)
    signer = draw(st.sampled_from(names))
    other = draw(st.sampled_from([n for n in names if n != signer]))
    ealg, enc = draw(st.sampled_from(J01.ENC_ALGS)), draw(st.sampled_from(J01.ENCS))
    demands = draw(st.sets(st.sampled_from(['encalg', 'encenc', 'sigalg'])))
    return draw(st.sampled_from(WHO)), alg, signer, other, ealg, enc, J01.enc_key(draw, ealg), sorted(demands), \
        draw(st.sampled_from(WRONG)), draw(st.integers(0, 5000)), draw(st.integers(0, 5000))


def enc_pair(name, ealg, kid, twist=0):
    """-> (key to encrypt with, key to decrypt with)"""
    from cryptojwt.jwk.hmac import SYMKey
    if name.startswith('oct-'):
        k = SYMKey(key=bytes((i + twist) % 256 for i in range({'A128KW': 16, 'A192KW': 24, 'A256KW': 32}[ealg])), use='enc', kid=kid)
        return k, k
    from cryptojwt.jwk.jwk import key_from_jwk_dict
    if twist:
        name = {'rsa1': 'rsa2', 'rsa2': 'rsa3', 'rsa3': 'rsa1', 'ec1': 'ec2', 'ec2': 'ec1', 'ec384a': 'ec384b',
                'ec521a': 'ec521b'}[name]
    priv = key_from_jwk_dict(tok.jwk(name, kid))
    priv.use = 'enc'
    return key_from_jwk_dict(tok.jwk(name, kid, private=False)), priv


def receive(who, token, kj, kw):
    """-> (accepted, what came out)"""
    cls = msgs.cls_of(who)
    if who in ('message:Message', 'oidc:IdToken'):
        m = cls(set_defaults=False)
        o = outcome(m.from_jwt, token, kj, **kw)
        return o[0] == 'ok', (dict(m.items()) if o[0] == 'ok' else o[1]), len(m)
    if who.startswith('oidc.session'):
        m = cls(logout_token=token)
        name = '__verified_logout_token'
    else:
        m = cls(request=token, **REQUEST)
        name = '__verified_request'
    o = outcome(m.verify, keyjar=kj, **kw)
    ok = o[0] == 'ok' and bool(o[1])
    return ok, (m.get(name) if ok else o[1]), int(name in m)


def encrypted(c, rec):
    who, alg, signer, other, ealg, enc, ename, demands, wrong, n1, n2 = c
    from cryptojwt.jwe.jwe import JWE
    from cryptojwt.key_bundle import KeyBundle
    claims = dict(LOGOUT if 'session' in who else REQUEST, iss=A)
    if who in ('message:Message', 'oidc:IdToken'):
        claims = {'iss': A, 'sub': 's%d' % n1}
    request = 'AuthorizationRequest' in who or who == 'oidc:OpenIDRequest'
    pub, priv = enc_pair(ename, ealg, 'e1')

    def wrap(inner, to=pub):
        return JWE(inner, alg=ealg, enc=enc, cty='JWT').encrypt([to])

    def jar(spec, key=priv):
        kj = tok.jar(spec, use='sig')
        if key is not None:
            kb = KeyBundle()
            kb.append(key)
            kj.add_kb('', kb)
        return kj
    spec = {A: [(signer, 'k1')], B: [(other, 'k2')]}
    right = {'encalg': ealg, 'encenc': enc}
    if not request:                 # requests say nothing about the signature
        right['sigalg'] = alg
    kw = {k: right[k] for k in demands if k in right}
    signed = tok.sign(claims, signer, alg, 'k1')
    token = wrap(signed)
    ok, out, _ = receive(who, token, jar(spec), kw)
    rec.check(ok, 'genuine %s / %s with %r refused: %r', ealg, enc, kw, out)
    rec.check(all(out.get(k) is not None for k in claims), 'came out as %r', out)
    if wrong is None:
        rec.cls('accepted')
        rec.nontrivial()
        return
    kj = jar(spec)
    algs = [a for a in J01.ENC_ALGS if a != ealg]
    encs = [e for e in J01.ENCS if e != enc]
    bad = token
    if wrong == 'another encryption algorithm demanded':
        kw['encalg'] = algs[n1 % len(algs)]
    elif wrong == 'another content encryption demanded':
        kw['encenc'] = encs[n1 % len(encs)]
    elif wrong == 'both demanded, one of them wrong':
        kw.update(right)
        if n2 % 2:
            kw['encalg'] = algs[n1 % len(algs)]
        else:
            kw['encenc'] = encs[n1 % len(encs)]
    elif wrong == 'to another key':
        bad = wrap(signed, enc_pair(ename, ealg, 'e1', 1)[0])
    elif wrong == 'no key to decrypt with':
        kj = jar(spec, None)
    elif wrong == 'altered':
        parts = [i for i, p in enumerate(token.split('.')) if p]
        bad = flip(token, parts[n1 % len(parts)], n2, n1 + n2)
        if same_bytes(bad, token):
            return
    elif wrong == 'swapped part':
        ps, qs = token.split('.'), wrap(tok.sign(dict(claims, iss=B), other, alg, 'k2')).split('.')
        i = [2, 3, 4][n1 % 3]
        ps[i] = qs[i]
        bad = '.'.join(ps)
    elif wrong == 'signed by another key':
        bad = wrap(tok.sign(claims, other, alg, 'k1'))
    elif wrong == 'altered before encryption':
        h, p, s = signed.split('.')
        bad = wrap('%s.%s.%s' % (h, tok.b64(dict(claims, sub='other')), s))
    elif wrong == 'claiming another issuer':
        bad = wrap(tok.sign(dict(claims, iss=B), signer, alg, 'k1'))
    elif wrong == 'not encrypted although demanded':
        bad, kw = signed, dict(kw, encalg=ealg)
    elif wrong == 'issuer unknown':
        kj = jar({B: [(signer, 'k1')]})
    else:
        bad = wrap(tok.sign(claims, other, alg, 'k1', {'jwk': tok.jwk(other, 'k1', private=other.startswith('oct'))}))
    ok, out, left = receive(who, bad, kj, kw)
    rec.check(not ok, '%s / %s, %s: accepted with %r', ealg, enc, wrong, out)
    rec.eq(left, 0, 'content left behind')
    rec.cls(wrong)
    rec.cls(who)
    rec.nontrivial()


assert gen
TARGETS = [Target('forgeries', case(), check, quick=4500, thorough=150000),
           Target('encrypted', wrapped(), encrypted, quick=500, thorough=20000)]
