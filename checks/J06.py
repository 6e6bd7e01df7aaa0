"""ID Tokens as issued: payload against the claims put in and hashes by hashlib; then a verifier at chosen times."""
import copy

from hypothesis import strategies as st

import gen
import msgs
import tok
import vf
from vf import Target, outcome

RULE = 'a case is non-trivial if an access token, a code or a lifetime is given'
ASSUMPTIONS = ['skew zero at the verifier', 'lifetimes are whole seconds']
KEY = 'oidc:IdToken'
ISS = 'https://op.example.org'
FREE = ['nonce', 'acr', 'azp', 'name', 'email', 'email_verified', 'auth_time', 'amr', 'sid', 'sub_jwk', 'address',
        'updated_at', 'birthdate']


@st.composite
def case(draw):
    now = draw(st.one_of(st.integers(10 ** 6, 4 * 10 ** 9), st.integers(1699990000, 1700010000)))
    claims = {'iss': ISS, 'sub': draw(gen.text), 'aud': draw(st.lists(gen.simple, min_size=1, max_size=2, unique=True))}
    for f in draw(st.lists(st.sampled_from(FREE), max_size=3, unique=True)):
        claims[f] = {'email_verified': True, 'auth_time': 1, 'amr': ['pwd'], 'address': {'country': 'SE'},
                     'updated_at': 12, 'birthdate': '2000-01-02', 'azp': claims['aud'][0]}.get(f) or draw(gen.text)
    if len(claims['aud']) > 1:
        claims['azp'] = draw(st.sampled_from(claims['aud']))
    claims.update(draw(st.dictionaries(gen.ident.filter(
        lambda k: k not in ('self', 'set_defaults', 'access_token', 'code', 'iss', 'sub', 'aud', 'exp', 'iat', 'at_hash',
                            'c_hash') and k.split('#')[0] not in msgs.SPECS[KEY].params),
        gen.json_value.filter(lambda v: v is not None and v not in ('', [''])), max_size=2)))
    at = draw(st.one_of(st.none(), gen.text))
    code = draw(st.one_of(st.none(), gen.text))
    lifetime = draw(st.one_of(st.just(0), st.integers(1, 5), st.sampled_from([60, 300, 3600, 86400, 10 ** 7])))
    stale = {}
    if draw(st.booleans()):
        stale['iat'] = draw(st.integers(1, 4 * 10 ** 9))
    if draw(st.booleans()) or not lifetime:
        stale['exp'] = now + draw(st.integers(1, 1000))
    alg = draw(st.sampled_from(tok.ALGS))
    return claims, stale, at, code, lifetime, alg, draw(st.sampled_from(tok.keys_for(alg))), now, \
        draw(st.sampled_from([0, 1, 999999999])), draw(st.sampled_from(['UTC', 'Asia/Kolkata', 'America/New_York'])), \
        draw(st.permutations(['claims', 'stale', 'values']))


def check(c, rec):
    claims, stale, at, code, lifetime, alg, name, now, nsec, tz, order = c
    vals = {}
    if at is not None:
        vals['access_token'] = at
    if code is not None:
        vals['code'] = code
    given = {}
    for o in order:
        given.update({'claims': claims, 'stale': stale, 'values': vals}[o])
    want = dict(claims)
    want.update(stale)
    want['iat'] = now
    if lifetime:
        want['exp'] = now + lifetime
    if at is not None:
        want['at_hash'] = tok.half_hash(at, alg)
    if code is not None:
        want['c_hash'] = tok.half_hash(code, alg)
    vf.set_tz(tz)
    try:
        vf.clock.set(now, nsec)
        m = msgs.build(KEY, copy.deepcopy(given))
        kw = {'lifetime': lifetime} if lifetime else {}
        token = m.to_jwt(key=[tok.key(name, 'k1')], algorithm=alg, **kw)
        got = tok.payload(token)
        ref = msgs.build(KEY, copy.deepcopy(want)).to_dict()
        rec.check(msgs.same(got, ref), 'issued %r, expected %r', got, ref)
        rec.eq(tok.header(token)['alg'], alg, 'algorithm')

        # what the verifier says
        p = {'id_token': token, 'state': 's'}
        if at is not None:
            p.update(access_token=at, token_type='Bearer')
        if code is not None:
            p['code'] = code
        kj = tok.jar({ISS: [(name, 'k1')]})
        exp = want['exp']
        args = {'keyjar': kj, 'iss': ISS, 'client_id': claims.get('azp', claims['aud'][0]), 'skew': 0,
                'nonce_storage_time': 10 ** 9}
        if 'nonce' in claims:
            args['nonce'] = claims['nonce']
        for t in sorted({now, exp - 1, exp, (now + exp) // 2, exp + 1, exp + 2, exp + 3600}):
            if t < now:
                continue
            vf.clock.set(t, nsec)
            o = outcome(msgs.build('oidc:AuthorizationResponse', dict(p)).verify, **args)
            ok = o[0] == 'ok' and o[1] is True
            if t <= exp:
                rec.check(ok, 'refused %d s before expiry: %r', exp - t, o[1])
            else:
                rec.check(not ok, 'accepted %d s after expiry', t - exp)
        # a verifier holding another value refuses
        vf.clock.set(now, nsec)
        for k in vals:
            q = dict(p)
            q[k] = q[k] + 'x'
            o = outcome(msgs.build('oidc:AuthorizationResponse', q).verify, **args)
            rec.check(o[0] == 'exc' or not o[1], 'accepted with another %s', k)
    finally:
        vf.clock.real()
        vf.set_tz('UTC')
    rec.cls('%s%s%s' % ('access token ' if at is not None else '', 'code ' if code is not None else '',
                        'lifetime' if lifetime else ''))
    rec.cls(alg)
    if vals or lifetime:
        rec.nontrivial()


@st.composite
def packing(draw):
    return draw(st.sampled_from(tok.ALGS)), draw(gen.text), draw(gen.text), draw(st.booleans()), draw(st.booleans()), \
        draw(st.sampled_from([None, 0, 1, 300, 10 ** 7])), draw(st.sampled_from([{}, {'exp': 5}, {'iat': 7}, {'exp': 1, 'iat': 2}])), \
        draw(st.integers(10 ** 6, 4 * 10 ** 9))


def pack(c, rec):
    alg, at, code, with_at, with_code, lifetime, stale, now = c
    want = {'iss': 'i', 'aud': ['a'], 'sub': 's'}
    given = dict(want, **stale)
    want.update(stale, iat=now)
    if lifetime:
        want['exp'] = now + lifetime
    if with_at:
        given['access_token'] = at
        want['at_hash'] = tok.half_hash(at, alg)
    if with_code:
        given['code'] = code
        want['c_hash'] = tok.half_hash(code, alg)
    m = msgs.build(KEY, given)
    vf.clock.set(now, 5)
    try:
        m.pack(alg, **({} if lifetime is None else {'lifetime': lifetime}))
    finally:
        vf.clock.real()
    rec.check(msgs.same(msgs.plain(m), want), 'packed %r, expected %r', msgs.plain(m), want)
    rec.cls('lifetime %r' % lifetime)
    if with_at or with_code or lifetime:
        rec.nontrivial()


@st.composite
def hashing(draw):
    return draw(st.sampled_from(tok.ALGS)), draw(gen.text), draw(gen.text), draw(st.booleans()), draw(st.booleans())


def val_hash(c, rec):
    alg, at, code, with_at, with_code = c
    m = msgs.build(KEY, {'iss': 'i', 'aud': ['a'], 'sub': 's', 'exp': 1, 'iat': 1})
    want = msgs.plain(m)
    if with_at:
        m['access_token'] = at
        want['at_hash'] = tok.half_hash(at, alg)
    if with_code:
        m['code'] = code
        want['c_hash'] = tok.half_hash(code, alg)
    m.val_hash(alg)
    rec.check(msgs.same(msgs.plain(m), want), 'val_hash: %r, expected %r', msgs.plain(m), want)
    m.val_hash(alg)
    rec.check(msgs.same(msgs.plain(m), want), 'val_hash twice: %r, expected %r', msgs.plain(m), want)
    if with_at or with_code:
        rec.nontrivial()


TARGETS = [Target('issue and verify', case(), check, quick=1200, thorough=40000),
           Target('pack', packing(), pack, quick=300, thorough=8000),
           Target('val_hash', hashing(), val_hash, quick=400, thorough=10000)]
