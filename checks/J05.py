"""Authorization responses with access token and code: hash claims computed with hashlib, right and wrong in many ways."""
import hashlib
import json

from hypothesis import strategies as st

import gen
import msgs
import tok
import vf
from vf import Target, outcome

RULE = 'a case is non-trivial if the response carries an access token or a code with a signed ID Token'
ASSUMPTIONS = ['values delivered are non-empty texts']
NOW = 1700000000
ISS = 'https://op.example.org'
CLAIMS = {'iss': ISS, 'sub': 'subject', 'aud': ['client1'], 'exp': NOW + 600, 'iat': NOW - 5}
KEY = 'oidc:AuthorizationResponse'
WRONG = ['missing', 'of another value', 'other function', 'whole hash', 'right half', 'one byte less', 'one byte more',
         'padded', 'case', 'the value itself', 'swapped', 'hex', 'standard alphabet', 'prefix', 'of value with blank',
         'of nothing', 'first character', 'last character', 'null text', 'empty']


def wrong_hash(how, value, alg, other):
    f = {'256': hashlib.sha256, '384': hashlib.sha384, '512': hashlib.sha512}[alg[-3:]]
    d = f(value.encode()).digest()
    h = len(d) // 2
    right = tok.half_hash(value, alg)
    if how == 'missing':
        return None
    if how == 'of another value':
        return tok.half_hash(value + 'x', alg)
    if how == 'other function':
        return tok.half_hash(value, {'256': 'HS384', '384': 'HS512', '512': 'HS256'}[alg[-3:]])
    if how == 'whole hash':
        return tok.b64(d)
    if how == 'right half':
        return tok.b64(d[h:])
    if how == 'one byte less':
        return tok.b64(d[:h - 1])
    if how == 'one byte more':
        return tok.b64(d[:h + 1])
    if how == 'padded':
        return right + '=' * (-len(right) % 4 or 1)
    if how == 'case':
        return right.swapcase()
    if how == 'the value itself':
        return value
    if how == 'swapped':
        return tok.half_hash(other if other is not None else value * 2, alg)
    if how == 'hex':
        return d[:h].hex()
    if how == 'standard alphabet':
        r = right.replace('-', '+').replace('_', '/')
        return r if r != right else right + '+'
    if how == 'prefix':
        return right[:len(right) // 2]
    if how == 'of value with blank':
        return tok.half_hash(value + ' ', alg)
    if how == 'of nothing':
        return tok.half_hash('', alg)
    if how == 'first character':
        return ('A' if right[0] != 'A' else 'B') + right[1:]
    if how == 'last character':
        # not the very last one, of which not every bit counts
        return right[:-2] + ('A' if right[-2] != 'A' else 'B') + right[-1]
    if how == 'empty':
        return ''
    return 'null'


value = st.one_of(gen.text, gen.simple, st.text(alphabet=gen.ALNUM + '-._~+/', min_size=20, max_size=80))


@st.composite
def case(draw):
    alg = draw(st.sampled_from(tok.ALGS))
    at = draw(st.one_of(st.none(), value, value))
    code = draw(st.one_of(st.none(), value, value))
    if at is not None and draw(st.integers(0, 9)) == 0:
        code = at
    bad = []
    for v in ('at_hash', 'c_hash'):
        bad.append(draw(st.sampled_from([None] * 12 + WRONG)) if draw(st.booleans()) else None)
    # hash claims for what is not delivered do no harm
    stray = draw(st.booleans())
    kw = {}
    for k, v in (('client_id', 'client1'), ('iss', ISS), ('skew', 5), ('sigalg', alg), ('allowed_sign_alg', alg)):
        if draw(st.integers(0, 3)) == 0:
            kw[k] = v
    return alg, draw(st.sampled_from(tok.keys_for(alg))), at, code, bad, stray, kw, draw(
        st.sampled_from(['dict', 'json', 'form']))


def check(c, rec):
    alg, name, at, code, bad, stray, kw, how = c
    claims = dict(CLAIMS)
    wrong = []
    for hname, v, other, b in (('at_hash', at, code, bad[0]), ('c_hash', code, at, bad[1])):
        if v is None:
            if stray:
                claims[hname] = 'stray'
            continue
        h = tok.half_hash(v, alg)
        if b:
            w = wrong_hash(b, v, alg, other)
            if w != h:
                wrong.append('%s %s' % (hname, b))
                h = w
        if h is not None:
            claims[hname] = h
    token = tok.sign(claims, name, alg, 'k1')
    p = {'id_token': token, 'state': 'st'}
    if at is not None:
        p.update(access_token=at, token_type='Bearer')
    if code is not None:
        p['code'] = code
    cls = msgs.cls_of(KEY)
    if how == 'json':
        m = cls(set_defaults=False).from_json(json.dumps(p))
    elif how == 'form':
        from urllib.parse import urlencode
        m = cls(set_defaults=False).from_urlencoded(urlencode(p))
    else:
        m = msgs.build(KEY, p)
    kj = tok.jar({ISS: [(name, 'k1')]})
    vf.clock.set(NOW)
    try:
        o = outcome(m.verify, keyjar=kj, **kw)
        ok = o[0] == 'ok' and bool(o[1])
        if wrong:
            rec.check(not ok, 'accepted with %s', wrong)
        else:
            rec.check(ok, 'refused: %r', o[1])
            # the very same message with another value is not accepted
            for k in ('access_token', 'code'):
                if k in p:
                    m2 = msgs.build(KEY, dict(p, **{k: p[k] + 'A'}))
                    o = outcome(m2.verify, keyjar=kj, **kw)
                    rec.check(o[0] == 'exc' or not o[1], 'accepted with an altered %s', k)
    finally:
        vf.clock.real()
    for w in wrong:
        rec.cls(('only ' if len(wrong) == 1 else 'also ') + w)
    if not wrong:
        rec.cls('accepted, %s%s' % ('access token ' if at is not None else '', 'code' if code is not None else ''))
    rec.cls('hash %s' % alg[-3:])
    if at is not None or code is not None:
        rec.nontrivial()


TARGETS = [Target('hash claims', case(), check, quick=3500, thorough=120000)]
