"""JsonWebToken.verify() and AuthnToken.verify() against a reference predicate under a controlled clock."""
import copy
import json

from hypothesis import strategies as st

import gen
import msgs
import vf
from checks.J03 import CLIENTS, ISS, TZS, audiences, offset, passing
from vf import Target, outcome

RULE = ('a case is non-trivial if exactly one rule is broken, or none although a claim or argument makes at least one '
        'rule apply')
ASSUMPTIONS = ['skew is a whole non-negative number of seconds; times are non-zero',
               'not-before in an authentication token is an unknown claim without meaning here']
AUTHN_REQ = ['iss', 'sub', 'aud', 'jti', 'exp']


@st.composite
def case(draw):
    key = draw(st.sampled_from(['oidc:JsonWebToken', 'oidc:JsonWebToken', 'oidc:AuthnToken']))
    now = draw(st.sampled_from([1700000000, 10 ** 6, 951782400, 1711846800, 4102444800])) + draw(st.integers(0, 4000000))
    kw = {}
    if draw(st.booleans()):
        kw['skew'] = draw(st.one_of(st.integers(0, 5), st.sampled_from([60, 300, 3600, 86400])))
    skew = kw.get('skew', 0)
    good = draw(st.integers(0, 2)) > 0
    p = {}
    d = (lambda: draw(passing if good else offset))
    names = ['exp', 'iat', 'nbf', 'iss', 'aud', 'sub', 'jti'] if key == 'oidc:JsonWebToken' else AUTHN_REQ + ['iat']
    if key == 'oidc:AuthnToken':
        chosen = [n for n in names if n in AUTHN_REQ or draw(st.booleans())]
        gone = draw(st.sampled_from([None] * 5 + AUTHN_REQ))
        chosen = [n for n in chosen if n != gone]
    else:
        chosen = draw(st.lists(st.sampled_from(names), unique=True, max_size=7))
    for n in draw(st.permutations(chosen)):
        if n == 'exp':
            p[n] = now - skew + d()
        elif n in ('iat', 'nbf'):
            p[n] = now + skew - d()
        elif n == 'aud':
            p[n] = draw(audiences)
        elif n == 'iss':
            p[n] = draw(st.sampled_from(ISS))
        else:
            p[n] = draw(gen.text)
    times = [n for n in ('exp', 'iat', 'nbf') if n in p]
    if len(times) > 1 and draw(st.integers(0, 4)) == 0:         # the same instant twice
        a, b = draw(st.permutations(times))[:2]
        p[a] = p[b]
    for n in ('exp', 'iat', 'nbf'):
        if p.get(n) == 0:
            p[n] = now
    a = draw(st.sampled_from(['absent', 'in', 'in', 'any']))
    if a == 'in':
        kw['aud'] = draw(st.sampled_from(p.get('aud', CLIENTS)))
    elif a == 'any':
        kw['aud'] = draw(st.sampled_from(CLIENTS))
    i = draw(st.sampled_from(['absent', 'same', 'same', 'any']))
    if i == 'same':
        kw['iss'] = p.get('iss', ISS[0])
    elif i == 'any':
        kw['iss'] = draw(st.sampled_from(ISS))
    return key, p, kw, now, draw(st.sampled_from([0, 1, 999999999])), draw(st.sampled_from(TZS)), \
        draw(st.sampled_from(['dict', 'kwargs', 'json']))


def rules(key, p, kw, now):
    broken, applied = [], []
    skew = kw.get('skew', 0)
    if key == 'oidc:AuthnToken':
        broken += ['missing ' + r for r in AUTHN_REQ if r not in p]
    if 'exp' in p:
        applied.append('exp')
        if p['exp'] < now - skew:
            broken.append('expired')
    if 'iat' in p:
        applied.append('iat')
        if p['iat'] > now + skew:
            broken.append('issued in the future')
    if 'nbf' in p:
        applied.append('nbf')
        if p['nbf'] > now + skew:
            broken.append('not valid yet')
    if 'aud' in p and 'aud' in kw:
        applied.append('aud')
        if not any(a == kw['aud'] for a in p['aud']):
            broken.append('audience')
    if 'iss' in p and 'iss' in kw:
        applied.append('iss')
        if p['iss'] != kw['iss']:
            broken.append('issuer')
    return broken, applied


def check(c, rec):
    key, p, kw, now, nsec, tz, how = c
    broken, applied = rules(key, p, kw, now)
    cls = msgs.cls_of(key)
    vf.set_tz(tz)
    vf.clock.set(now, nsec)
    try:
        if how == 'kwargs':
            m = cls(set_defaults=False, **copy.deepcopy(p))
        elif how == 'json':
            m = cls(set_defaults=False).from_json(json.dumps(p))
        else:
            m = msgs.build(key, copy.deepcopy(p))
        o = outcome(m.verify, **kw)
        again = outcome(m.verify, **kw)
    finally:
        vf.clock.real()
        vf.set_tz('UTC')
    if broken:
        rec.check(o[0] == 'exc' or not o[1], 'accepted although: %s', broken)
        rec.check(again[0] == 'exc' or not again[1], 'accepted the second time although: %s', broken)
    else:
        rec.check(o == ('ok', True), 'refused (%r) although every rule holds', o[1])
        rec.check(again == ('ok', True), 'refused the second time')
        rec.check(msgs.same(msgs.plain(m), p), 'verification changed the token: %r', msgs.plain(m))
    for b in broken:
        rec.cls(('only ' if len(broken) == 1 else 'also ') + b)
    if not broken:
        rec.cls('accepted')
        for a in applied:
            rec.cls('accepted with ' + a)
    if len(broken) == 1 or (not broken and applied):
        rec.nontrivial()


TARGETS = [Target('reference predicate', case(), check, quick=6000, thorough=250000)]
