"""IdToken.verify() against a reference predicate written from OpenID Connect Core 3.1.3.7, under a controlled clock."""
import copy

from hypothesis import strategies as st

import gen
import msgs
import vf
from vf import Target, outcome

RULE = ('a case is non-trivial if exactly one rule decides it (one rule broken, or every rule satisfied with an argument '
        'or claim that makes at least one optional rule apply)')
ASSUMPTIONS = ['skew and storage time are whole non-negative seconds']
TZS = ['UTC', 'America/New_York', 'Asia/Kolkata', 'Pacific/Kiritimati', 'Europe/Stockholm', 'Pacific/Marquesas']
ISS = ['https://op.example.org', 'https://op.example.org/', 'https://op.example.org:443', 'https://OP.example.org',
       'http://op.example.org', 'https://op.example.org/a', 'https://op.example.or', 'op.example.org']
CLIENTS = ['client1', 'client10', 'client', 'Client1', 'client2', ' client1', 'c', 'https://rp.example.com/cb', 'åäö', '1']
NONCES = ['nonce', 'Nonce', 'nonce1', 'nonc', 'n', '', 'åäö', ' nonce']
KEY = 'oidc:IdToken'

offset = st.one_of(st.integers(-3, 3), st.sampled_from([-1, 0, 1]), st.integers(-100000, 100000),
                   st.sampled_from([s * d + e for s in (3600, 7200, 14400, 60, 600, 86400) for d in (-1, 1)
                                    for e in (-1, 0, 1)]))
passing = st.one_of(st.integers(0, 3), st.integers(0, 10 ** 6))
# mostly a few, sometimes many with those in question first, in the middle or last
audiences = st.one_of(*[st.lists(st.sampled_from(CLIENTS), min_size=1, max_size=3, unique=True)] * 5, st.builds(
    lambda few, n, at: ['rp%d' % i for i in range(min(n, at))] + few + ['rp%d' % i for i in range(at, n)],
    st.lists(st.sampled_from(CLIENTS), min_size=1, max_size=3, unique=True), st.integers(3, 70), st.integers(0, 70)))


@st.composite
def case(draw):
    now = draw(st.sampled_from([1700000000, 1, 951782400, 1711846800, 4102444800])) + draw(st.integers(0, 4000000))
    kw = {}
    if draw(st.booleans()):
        kw['skew'] = draw(st.one_of(st.integers(0, 5), st.sampled_from([60, 300, 3600, 14400, 10 ** 6])))
    if draw(st.integers(0, 2)) == 0:
        kw['nonce_storage_time'] = draw(st.one_of(st.integers(0, 5), st.sampled_from([60, 3600, 14399, 14401, 86400])))
    skew, storage = kw.get('skew', 0), kw.get('nonce_storage_time', 14400)
    good = draw(st.integers(0, 3)) > 0       # three quarters start out with acceptable times
    p = {'iss': draw(st.sampled_from(ISS)), 'sub': draw(gen.simple),
         'exp': now - skew + draw(passing if good else offset),
         'iat': now - skew - storage + draw(passing if good else offset)}
    if p['exp'] == 0 or p['iat'] == 0:
        p['exp'] = p['iat'] = now
    aud = draw(audiences)
    p['aud'] = aud
    azp = draw(st.sampled_from(['none', 'in', 'in', 'any']))
    if len(aud) > 1 and azp == 'none' and draw(st.integers(0, 2)):
        azp = 'in'
    if azp == 'in':
        p['azp'] = draw(st.sampled_from(aud))
    elif azp == 'any':
        p['azp'] = draw(st.sampled_from(CLIENTS))
    ci = draw(st.sampled_from(['absent', 'azp', 'azp', 'aud', 'any']))
    if ci == 'azp':
        kw['client_id'] = p.get('azp', aud[-1])
    elif ci == 'aud':
        kw['client_id'] = draw(st.sampled_from(aud))
    elif ci == 'any':
        kw['client_id'] = draw(st.sampled_from(CLIENTS))
    i = draw(st.sampled_from(['absent', 'same', 'same', 'any']))
    if i == 'same':
        kw['iss'] = p['iss']
    elif i == 'any':
        kw['iss'] = draw(st.sampled_from(ISS))
    n = draw(st.sampled_from(['absent', 'token', 'expected', 'same', 'same', 'any']))
    if n in ('token', 'same', 'any'):
        p['nonce'] = draw(st.sampled_from(NONCES[:5] + NONCES[6:]))
    if n == 'expected':
        kw['nonce'] = draw(st.sampled_from(NONCES))
    elif n == 'same':
        kw['nonce'] = p['nonce']
    elif n == 'any':
        kw['nonce'] = draw(st.sampled_from(NONCES))
    gone = draw(st.sampled_from([None] * 8 + ['iss', 'sub', 'aud', 'exp', 'iat']))
    if gone:
        del p[gone]
    for k in draw(st.lists(st.sampled_from(['acr', 'auth_time', 'amr', 'sid', 'at_hash', 'name', 'email']), max_size=2)):
        p[k] = {'auth_time': now + 5, 'amr': ['pwd']}.get(k, 'x')
    return p, kw, now, draw(st.sampled_from([0, 1, 500000000, 999999999])), draw(st.sampled_from(TZS)), \
        draw(st.sampled_from(['dict', 'kwargs', 'json']))


def rules(p, kw, now):
    """Names of the broken rules, and of the optional ones that apply."""
    broken, applied = [], []
    for r in ('iss', 'sub', 'aud', 'exp', 'iat'):
        if r not in p:
            broken.append('missing ' + r)
    if 'iss' in kw and 'iss' in p:
        applied.append('issuer')
        if kw['iss'] != p['iss']:
            broken.append('issuer')
    aud = p.get('aud')
    if aud:
        if 'client_id' in kw:
            applied.append('audience')
            if not any(a == kw['client_id'] for a in aud):
                broken.append('audience')
        if len(aud) > 1:
            applied.append('several audiences')
            if 'azp' not in p:
                broken.append('azp missing')
            elif not any(a == p['azp'] for a in aud):
                broken.append('azp not an audience')
    if 'azp' in p and 'client_id' in kw:
        applied.append('azp')
        if p['azp'] != kw['client_id']:
            broken.append('azp not the client')
    skew = kw.get('skew', 0)
    if 'exp' in p and p['exp'] < now - skew:
        broken.append('expired')
    if 'iat' in p and p['iat'] + kw.get('nonce_storage_time', 4 * 3600) < now - skew:
        broken.append('issued too long ago')
    if 'nonce' in p and 'nonce' in kw:
        applied.append('nonce')
        if p['nonce'] != kw['nonce']:
            broken.append('nonce')
    return broken, applied


def build(p, how):
    cls = msgs.cls_of(KEY)
    if how == 'kwargs':
        return cls(set_defaults=False, **copy.deepcopy(p))
    if how == 'json':
        import json
        return cls(set_defaults=False).from_json(json.dumps(p))
    return msgs.build(KEY, copy.deepcopy(p))


def check(c, rec):
    p, kw, now, nsec, tz, how = c
    broken, applied = rules(p, kw, now)
    vf.set_tz(tz)
    vf.clock.set(now, nsec)
    try:
        m = build(p, how)
        o = outcome(m.verify, **kw)
        again = outcome(m.verify, **kw)
    finally:
        vf.clock.real()
        vf.set_tz('UTC')
    if broken:
        rec.check(o[0] == 'exc' or not o[1], 'accepted although: %s', broken)
        rec.check(again[0] == 'exc' or not again[1], 'accepted the second time although: %s', broken)
    else:
        rec.check(o == ('ok', True), 'refused (%r) although every rule holds', o[1])
        rec.check(again == ('ok', True), 'refused the second time')
        rec.check(msgs.same(msgs.plain(m), p), 'verification changed the token: %r', msgs.plain(m))
    for b in broken:
        rec.cls(('only ' if len(broken) == 1 else 'also ') + b)
    if not broken:
        rec.cls('accepted')
        if p['exp'] == now - kw.get('skew', 0):
            rec.cls('accepted in the last second before expiry')
        for a in applied:
            rec.cls('accepted with ' + a)
    if len(broken) == 1 or (not broken and (applied or kw)):
        rec.nontrivial()


TARGETS = [Target('reference predicate', case(), check, quick=6000, thorough=250000)]
