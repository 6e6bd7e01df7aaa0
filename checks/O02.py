"""Merging by policy against dictionary operations; requests with request objects signed by right and wrong keys; request
objects made by the library itself."""
import copy

from hypothesis import strategies as st

import gen
import msgs
import tok
import valid
import vf
from checks import O01
from vf import Target, outcome

RULE = ('a case is non-trivial if request and request object differ in at least one parameter, or the signature is wrong')
ASSUMPTIONS = ['request objects are signed (what happens to unsigned ones is not decided)',
               'the JOSE library picks no ES512 key for packing tokens, so none are built with it',
               'the request itself has the parameters that are required of it']
KEYS = ['oauth2:AuthorizationRequest', 'oidc:AuthorizationRequest', 'oidc:OpenIDRequest',
        'oauth2:JWTSecuredAuthorizationRequest', 'oauth2:PushedAuthorizationRequest']
ARG = {'self', 'set_defaults'}


# ---------------------------------------------------------------------- merge
@st.composite
def merging(draw):
    key = draw(st.sampled_from(KEYS))
    spec = msgs.SPECS[key]
    names = draw(st.lists(st.sampled_from(sorted(spec.params)), unique=True, max_size=7))
    names += draw(st.lists(msgs.extra_keys(key).filter(lambda k: k not in ARG and k.split('#')[0] not in msgs.SPECS[KEYS[2]].params),
                           unique=True, max_size=2))
    sides = ({}, {})
    for n in names:
        where = draw(st.sampled_from(['request', 'object', 'both', 'both, same']))
        s = msgs.value_for(spec.params[n]) if n in spec.params else gen.text
        a, b = draw(s), draw(s)
        if where != 'object':
            sides[0][n] = a
        if where != 'request':
            sides[1][n] = a if where == 'both, same' else b
    policy = draw(st.sampled_from(['strict', 'lax', 'whitelist', 'whitelist']))
    wl = draw(st.lists(st.sampled_from(names + ['other', 'state', 'scope']), unique=True, max_size=4))
    return key, sides[0], sides[1], policy, wl, draw(st.sampled_from(['message', 'oidc', 'base'])), draw(st.booleans())


def merge(c, rec):
    key, req, obj, policy, wl, okind, default = c
    m = msgs.build(key, copy.deepcopy(req))
    okey = {'message': key, 'oidc': 'oidc:OpenIDRequest', 'base': key}[okind]
    o = msgs.build(okey, copy.deepcopy(obj))
    before = msgs.plain(o)
    want = {}
    for k, v in req.items():
        if policy == 'lax' or (policy == 'whitelist' and k in wl):
            want[k] = v
    want.update(before)
    if policy == 'strict' and default:
        m.merge(o)
    elif policy == 'whitelist':
        m.merge(o, policy, list(wl)) if default else m.merge(o, 'whitelist', whitelist=tuple(wl))
    else:
        m.merge(o, policy)
    got = msgs.plain(m)
    # a value that an object of another class holds is held as this class holds it
    if okind != 'oidc' or key.startswith('oidc:'):
        rec.check(msgs.same(got, want), '%s merge by %s %r: %r, expected %r', key, policy, wl, got, want)
    else:
        rec.eq(set(got), set(want), 'parameters after merging by %s %r', policy, wl)
    rec.check(msgs.same(msgs.plain(o), before), 'merging changed the request object')
    rec.cls(policy)
    if req != obj:
        rec.nontrivial()


# ---------------------------------------------------------------------- verify
SIGN = [None] * 5 + ['other key', 'altered', 'issuer unknown', 'no signature', 'swapped payload', 'not a JWT', 'no key jar']


@st.composite
def requests(draw):
    key = draw(st.sampled_from(KEYS[1:]))
    if key.startswith('oidc:'):
        sides = []
        for i in range(2):
            _, p, kw, _ = draw(O01.case())
            p = dict(p)
            sides.append(p)
        outer, inner = sides
        for r, v in (('client_id', 'client1'), ('redirect_uri', 'https://rp/'), ('response_type', ['code']),
                     ('scope', ['openid'])):
            outer.setdefault(r, v)
        for n, ok in (('prompt', O01.PROMPTS), ('display', O01.DISPLAYS)):
            if n in outer and any(v not in ok for v in ([outer[n]] if n == 'display' else outer[n])):
                del outer[n]
        if draw(st.integers(0, 3)):
            # an acceptable object more often than not
            inner = {k: v for k, v in inner.items() if k not in ('prompt', 'display')}
            inner.update(client_id='client1', redirect_uri='https://rp/x', scope=['openid', 'email'], nonce='n0')
            inner.setdefault('response_type', ['code'])
            if draw(st.booleans()):
                inner['prompt'] = ['consent']
            kw.pop('nonce', None)
    else:
        outer = draw(msgs.params_for('oauth2:AuthorizationRequest', with_required=False))
        inner = draw(msgs.params_for('oauth2:AuthorizationRequest', with_required=draw(st.booleans())))
        kw = {}
        outer.update(draw(valid.extras(key, 1)))
        inner.update(draw(valid.extras(key, 1)))
        if draw(st.booleans()):
            outer['request_uri'] = 'https://rp/r'
    alg = draw(st.sampled_from(tok.ALGS))
    names = tok.keys_for(alg)
    signer = draw(st.sampled_from(names))
    other = draw(st.sampled_from([n for n in names if n != signer]))
    inner['iss'] = 'client1'
    return key, outer, inner, kw, alg, signer, other, draw(st.sampled_from(SIGN)), draw(st.integers(0, 100))


def verifying(c, rec):
    key, outer, inner, kw, alg, signer, other, wrong, what = c
    cls = msgs.cls_of(key)
    oidc = key.startswith('oidc:')
    claims = inner
    if what % 2:
        params = msgs.SPECS[key].params
        claims = {k: ' '.join(v) if params.get(k) == 'S' else v for k, v in inner.items()}
    token = tok.sign(claims, signer, alg, 'k1')
    spec = {'client1': [(signer, 'k1')], 'client2': [(other, 'k1')]}
    if wrong == 'other key':
        token = tok.sign(claims, other, alg, 'k1')
    elif wrong == 'altered':
        h, p, s = token.split('.')
        b = bytearray(tok.unb64(s))
        b[what % len(b)] ^= 1 << (what % 8)
        token = '%s.%s.%s' % (h, p, tok.b64(bytes(b)))
    elif wrong == 'issuer unknown':
        spec = {'client2': [(signer, 'k1')]}
    elif wrong == 'no signature':
        token = '.'.join(token.split('.')[:2]) + '.'
    elif wrong == 'swapped payload':
        h, p, s = token.split('.')
        token = '%s.%s.%s' % (h, tok.b64(dict(claims, state='swapped')), s)
    elif wrong == 'not a JWT':
        token = ['x', token[::-1], '.'.join(token.split('.')[:2]), token.split('.')[1]][what % 4]
    m = msgs.build(key, copy.deepcopy(outer))
    m['request'] = token
    kj = None if wrong == 'no key jar' else tok.jar(spec)
    o = outcome(m.verify, keyjar=kj, **kw)
    ok = o[0] == 'ok' and bool(o[1])
    if wrong:
        rec.check(not ok, '%s accepted a request object with: %s', key, wrong)
        rec.cls('refused ' + wrong)
        rec.nontrivial()
        return
    if key == 'oauth2:PushedAuthorizationRequest':
        merged = dict(outer, request=token)
        merged.update(inner)
    else:
        merged = dict(inner)
    if oidc:
        broken, applied = O01.rules(merged, kw)
    else:
        broken = [r for r in ('response_type', 'client_id') if r not in merged]
    if broken:
        rec.check(not ok, '%s accepted although the outcome of merging breaks: %s', key, broken)
        rec.cls('refused, merged parameters')
    else:
        rec.check(o == ('ok', True), '%s refused: %r', key, o[1])
        got = {k: v for k, v in msgs.plain(m).items() if k != '__verified_request'}
        rec.check(msgs.same(got, merged), '%s merged to %r, expected %r', key, got, merged)
        entry = msgs.plain(m['__verified_request'])
        rec.check(msgs.same(entry, inner), 'recorded object %r, the signed one %r', entry, inner)
        rec.cls('accepted ' + key)
    if outer != inner:
        rec.nontrivial()


@st.composite
def without(draw):
    key = draw(st.sampled_from(['oauth2:JWTSecuredAuthorizationRequest', 'oauth2:PushedAuthorizationRequest']))
    return key, draw(msgs.params_for('oauth2:AuthorizationRequest')), draw(st.booleans())


def no_object(c, rec):
    key, p, uri = c
    p = dict(p)
    if uri:
        p['request_uri'] = 'https://rp.example.com/request'
    m = msgs.build(key, copy.deepcopy(p))
    o = outcome(m.verify, keyjar=tok.jar({}))
    if 'JWTSecured' in key and not uri:
        rec.check(o[0] == 'exc' or not o[1], 'JWT-secured request accepted without request and request_uri')
    else:
        rec.check(o == ('ok', True), '%s refused: %r', key, o[1])
        rec.check(msgs.same(msgs.plain(m), p), 'changed by verification: %r', msgs.plain(m))
    rec.nontrivial()


# ---------------------------------------------------------------------- built by the library
@st.composite
def building(draw):
    alg = draw(st.sampled_from([a for a in tok.ALGS if a != 'ES512']))
    p = {'client_id': 'client1', 'redirect_uri': draw(gen.text), 'response_type': draw(st.sampled_from(
        [['code'], ['code', 'id_token'], ['id_token', 'token']])), 'scope': draw(st.permutations(
            ['openid', draw(valid.scope_token)])), 'nonce': draw(gen.text)}
    spec = msgs.SPECS['oidc:AuthorizationRequest']
    for n in draw(st.lists(st.sampled_from(['state', 'max_age', 'ui_locales', 'claims_locales', 'login_hint', 'acr_values',
                                            'claims', 'registration', 'response_mode', 'display', 'prompt']), unique=True,
                           max_size=6)):
        if n == 'display':
            p[n] = draw(st.sampled_from(O01.DISPLAYS))
        elif n == 'prompt':
            p[n] = draw(st.sampled_from([['login', 'consent'], ['none'], ['select_account']]))
        else:
            p[n] = draw(msgs.value_for(spec.params[n]))
    # offline access needs consent
    if 'offline_access' in p['scope']:
        p['prompt'] = ['consent']
    p.update(draw(valid.extras('oidc:AuthorizationRequest', 1)))
    return p, alg, draw(st.sampled_from(tok.keys_for(alg))), draw(st.sampled_from([None, 'k1'])), \
        draw(st.booleans()), draw(st.sampled_from([0, 1, 59, 600, 3601, 10 ** 6 + 7])), draw(st.sampled_from(['drop', 'keep', 'differ']))


def build(c, rec):
    p, alg, name, kid, with_jti, lifetime, what = c
    from oidcmsg.oidc import AuthorizationRequest, make_openid_request
    arq = AuthorizationRequest().from_dict(copy.deepcopy(p))
    kj = tok.jar({'client1': [(name, kid)]}, private=True)
    vf.clock.set(1700000000)
    try:
        more = dict(with_jti=with_jti, lifetime=lifetime) if len(p) % 2 else \
            dict({'with_jti': True} if with_jti else {}, **{'lifetime': lifetime} if lifetime else {})
        token = make_openid_request(arq, kj, issuer='client1', request_object_signing_alg=alg, recv='https://op.example.org', **more)
        rec.check(msgs.same(msgs.plain(arq), p), 'building the object changed the request')
        rec.eq(tok.header(token)['alg'], alg, 'signing algorithm')
        pl = tok.payload(token)
        rec.eq(pl['iss'], 'client1', 'issuer')
        rec.check(pl['aud'] in ('https://op.example.org', ['https://op.example.org']), 'audience %r', pl['aud'])
        rec.eq('jti' in pl, with_jti, 'token id')
        if lifetime:
            rec.eq(pl['exp'] - pl['iat'], lifetime, 'lifetime')
        else:
            rec.check('exp' not in pl, 'no lifetime asked for, expires at %r', pl.get('exp'))
        outer = {k: p[k] for k in ('client_id', 'response_type', 'scope', 'redirect_uri')}
        if what == 'keep':
            outer = copy.deepcopy(p)
        elif what == 'differ':
            outer.update(state='other state', redirect_uri='https://evil.example.net/', login_hint='x', max_age=99)
        req = AuthorizationRequest(**outer)
        req['request'] = token
        o = outcome(req.verify, keyjar=tok.jar({'client1': [(name, kid)]}))
    finally:
        vf.clock.real()
    rec.check(o == ('ok', True), 'refused: %r', o[1])
    got = msgs.plain(req)
    for k, v in p.items():
        rec.check(k in got and msgs.same(got[k], v), 'parameter %s: %r, originally %r', k, got.get(k), v)
    left = set(got) - set(p) - {'iss', 'iat', 'aud', 'exp', 'jti', '__verified_request', 'kid'}
    rec.check(not left, 'parameters from nowhere: %s', sorted(left))
    rec.cls(alg)
    rec.nontrivial()


TARGETS = [Target('merge', merging(), merge, quick=2000, thorough=60000),
           Target('request objects', requests(), verifying, quick=1800, thorough=60000),
           Target('no request object', without(), no_object, quick=300, thorough=3000),
           Target('objects built by the library', building(), build, quick=800, thorough=25000)]
