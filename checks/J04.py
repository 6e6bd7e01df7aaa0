"""Messages carrying ID Tokens: signer, algorithm, key jar, arguments and claims in combination, against a reference
predicate; tokens are made directly with the JOSE library."""
import copy
import json

from hypothesis import strategies as st

import gen
import msgs
import tok
import vf
from vf import Target, outcome

RULE = 'a case is non-trivial if at most one thing is wrong with the token or the arguments'
ASSUMPTIONS = ['what happens when unsigned tokens are allowed and a particular signing algorithm is demanded as well is '
               'not decided', 'authorization responses carry no access token or code here (that is J05)']
NOW = 1700000000
ISS, OTHER = 'https://op.example.org', 'https://other.example.org'
CARRIERS = {'oidc:AccessTokenResponse': ('id_token', {'access_token': 'at', 'token_type': 'Bearer'}),
            'oidc:AuthorizationResponse': ('id_token', {'state': 's'}),
            'oidc:MessageWithIdToken': ('id_token', {}),
            'oidc.session:RefreshSessionRequest': ('id_token', {'redirect_url': 'https://rp/', 'state': 's'}),
            'oidc.session:RefreshSessionResponse': ('id_token', {'state': 's'}),
            'oidc.session:CheckSessionRequest': ('id_token', {}),
            'oidc.session:EndSessionRequest': ('id_token_hint', {'post_logout_redirect_uri': 'https://rp/'})}
CLAIMS = {'iss': ISS, 'sub': 'subject', 'aud': ['client1'], 'exp': NOW + 600, 'iat': NOW - 5}

WRONG = [None] * 8 + ['unsigned', 'unsigned', 'unsigned', 'other key', 'issuer unknown', 'issuer has no keys', 'no issuer',
                      'foreign issuer', 'allowed algorithm', 'demanded algorithm', 'demanded none', 'not a JWT', 'altered',
                      'encrypted only', 'no key jar', 'claims', 'claims', 'algorithm confusion']


def near(alg):
    """Not the name of the algorithm, but much like it."""
    return [alg + ',', alg + ' ES999', 'RS000 ' + alg, alg[:-1], alg + '6', alg.lower()]


@st.composite
def case(draw):
    carrier = draw(st.sampled_from(sorted(CARRIERS)))
    alg = draw(st.sampled_from(tok.ALGS))
    names = tok.keys_for(alg)
    signer = draw(st.sampled_from(names))
    other = draw(st.sampled_from([n for n in names if n != signer]))
    kid = draw(st.sampled_from([None, 'k1']))
    claims = dict(CLAIMS)
    kw = {}
    for k, v in (('iss', ISS), ('client_id', 'client1'), ('skew', 10), ('nonce', 'n1'), ('issuer', ISS),
                 ('nonce_storage_time', 3600), ('verify', True)):
        if draw(st.integers(0, 2)) == 0:
            kw[k] = v
    if draw(st.booleans()):
        claims['nonce'] = 'n1'
    if draw(st.integers(0, 2)) == 0:
        kw['allowed_sign_alg'] = alg
    if draw(st.integers(0, 2)) == 0:
        kw['sigalg'] = alg
    if draw(st.integers(0, 3)) == 0:
        kw['allow_sign_alg_none'] = draw(st.booleans())
    wrong = draw(st.sampled_from(WRONG))
    what = draw(st.integers(0, 1000))
    others = [a for a in tok.ALGS if a != alg]
    same_type = [a for a in others if a[:2] == alg[:2]]
    if wrong == 'unsigned':
        kw.pop('allowed_sign_alg', None)
        kw.pop('sigalg', None)
        kw.pop('allow_sign_alg_none', None)
        perm = draw(st.sampled_from(['no', 'no', 'sigalg none', 'allowed', 'refused', 'both', 'other', 'empty']))
        kw.update({'sigalg none': {'sigalg': 'none'}, 'allowed': {'allow_sign_alg_none': True},
                   'refused': {'allow_sign_alg_none': False},
                   'both': {'allow_sign_alg_none': True, 'sigalg': 'none'},
                   'other': {'sigalg': alg}, 'empty': {'allow_sign_alg_none': False, 'sigalg': ''}}.get(perm, {}))
    elif wrong == 'allowed algorithm':
        kw['allowed_sign_alg'] = draw(st.sampled_from(others + same_type * 3 + ['none', 'None', ''] + near(alg) * 2))
    elif wrong == 'demanded algorithm':
        kw['sigalg'] = draw(st.sampled_from(others + same_type * 3 + near(alg)))
    elif wrong == 'demanded none':
        kw['sigalg'] = 'none'
        kw.pop('allowed_sign_alg', None)
    elif wrong == 'claims':
        change = draw(st.sampled_from([('exp', NOW - 3600), ('exp', NOW - 11), ('iat', NOW - 99999), ('aud', ['client2']),
                                       ('aud', ['client1', 'client2']), ('azp', 'client2'), ('nonce', 'n2'),
                                       ('iss', None), ('sub', None), ('aud', None), ('exp', None), ('iat', None),
                                       ('expected issuer', OTHER)]))
        k, v = change
        if k == 'expected issuer':
            kw['iss'] = v
        elif v is None:
            del claims[k]
        else:
            claims[k] = v
        if k == 'aud' or k == 'azp':
            kw['client_id'] = 'client1'
        if k == 'nonce':
            kw['nonce'] = 'n1'
    elif wrong == 'no issuer':
        del claims['iss']
        kw.pop('iss', None)
    elif wrong == 'foreign issuer':
        claims['iss'] = OTHER
        kw.pop('iss', None)
        if draw(st.booleans()):
            kw['issuer'] = ISS
    return carrier, alg, signer, other, kid, claims, kw, wrong, what, draw(st.sampled_from(['dict', 'json', 'form']))


def expected(c):
    """True, False or None (undecided)"""
    carrier, alg, signer, other, kid, claims, kw, wrong, what, how = c
    if wrong == 'unsigned':
        if kw.get('sigalg') in tok.ALGS and kw.get('allow_sign_alg_none'):
            return None
        return bool(kw.get('sigalg') == 'none' or kw.get('allow_sign_alg_none'))
    return wrong is None


def check(c, rec):
    carrier, alg, signer, other, kid, claims, kw, wrong, what, how = c
    name, rest = CARRIERS[carrier]
    want = expected(c)
    token = tok.sign(claims, signer, alg, kid)
    spec = {ISS: [(signer, kid)], OTHER: [(other, 'k1')]}
    if wrong == 'unsigned':
        token = tok.sign(claims, None, 'none') + ('' if what % 3 else token.split('.')[2])
        if what % 2:
            spec = {}
    elif wrong == 'other key':
        token = tok.sign(claims, other, alg, [kid, 'k1'][what % 2])
    elif wrong == 'issuer unknown':
        spec = {'': [(signer, kid)], ISS + '/': [(signer, kid)], OTHER: [(signer, kid)]}
    elif wrong == 'issuer has no keys':
        spec = {ISS: [(n, kid) for n in ('rsa4', 'ec3', 'oct4') if n[:2] != signer[:2]], OTHER: [(signer, kid)]}
    elif wrong == 'no issuer':
        spec[''] = [(signer, kid)]
    elif wrong == 'foreign issuer' and what % 2:
        del spec[OTHER]
    elif wrong == 'not a JWT':
        token = [token.split('.')[0], token.replace('.', ' '), 'token', json.dumps(claims), token + '.' + token,
                 '.'.join(token.split('.')[:2]), '..', '{}', tok.b64(claims), '.' + token][what % 10]
    elif wrong == 'altered':
        h, p, s = token.split('.')
        sig = bytearray(tok.unb64(s))
        sig[what % len(sig)] ^= 1 << (what % 8)
        token = ['%s.%s.%s' % (h, tok.b64(dict(claims, sub='root')), s), '%s.%s.%s' % (h, p, tok.b64(bytes(sig))),
                 '%s.%s.' % (h, p)][what % 3]
    elif wrong == 'encrypted only':
        from cryptojwt.jwe.jwe import JWE
        token = JWE(json.dumps(claims), alg='RSA-OAEP', enc='A128GCM').encrypt([tok.key('rsa1')])
        spec[''] = ['rsa1']
    elif wrong == 'algorithm confusion':
        hd = tok.header(token)
        others = [a for a in tok.ALGS if a != alg]
        hd['alg'] = (others + ['None', 'NONE'])[what % (len(others) + 2)]
        token = '%s.%s.%s' % ((tok.b64(hd),) + tuple(token.split('.')[1:]))
    args = dict(kw)
    args['keyjar'] = None if wrong == 'no key jar' else tok.jar(spec, private=(wrong == 'encrypted only'))
    params = dict(rest)
    params[name] = token
    cls = msgs.cls_of(carrier)
    if how == 'json':
        m = cls(set_defaults=False).from_json(json.dumps(params))
    elif how == 'form':
        from urllib.parse import urlencode
        m = cls(set_defaults=False).from_urlencoded(urlencode(params))
    else:
        m = msgs.build(carrier, copy.deepcopy(params))
    vf.clock.set(NOW)
    try:
        o = outcome(m.verify, **args)
    finally:
        vf.clock.real()
    ok = o[0] == 'ok' and bool(o[1])
    if want is True:
        rec.check(ok, '%s refused: %r', carrier, o[1])
        got = m['__verified_' + name]
        rec.check(msgs.same(msgs.plain(got), claims), 'verified token %r, claims %r', got, claims)
    elif want is False:
        rec.check(not ok, '%s accepted although: %s', carrier, wrong)
    rec.cls('%s -> %s' % (wrong or 'nothing wrong', 'accepted' if ok else 'refused'))
    rec.cls(carrier)
    rec.nontrivial()


assert gen
TARGETS = [Target('carried ID Tokens', case(), check, quick=4500, thorough=150000)]
