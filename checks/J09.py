"""Logout tokens, back-channel logout and end-session requests against a reference predicate written from the specification."""
import copy
import json

from hypothesis import strategies as st

import gen
import msgs
import tok
import vf
from checks.J03 import CLIENTS, TZS, audiences
from vf import Target, outcome

RULE = 'a case is non-trivial if at most one rule is broken'
ASSUMPTIONS = ['skew is a whole non-negative number of seconds',
               'allowed unsigned tokens together with a demanded signing algorithm are not decided']
NOW = 1700000000
EVENT = 'http://schemas.openid.net/event/backchannel-logout'
ISS, OTHER = 'https://op.example.org', 'https://other.example.org'
BAD_EVENTS = [{}, {EVENT: {'a': 1}}, {EVENT: None}, {EVENT: []}, {EVENT: ''}, {EVENT: False}, {EVENT: 0}, {EVENT: '{}'},
              {EVENT: True}, {EVENT: [{}]}, {EVENT: {}, 'x': {}}, {EVENT: {}, EVENT + '2': {}}, {EVENT + '/': {}},
              {EVENT.upper(): {}}, {EVENT.replace('http', 'https'): {}}, {'x': {}}, {'': {}}, {EVENT[:-1]: {}},
              {'backchannel-logout': {}}, {EVENT: {'': None}}, {EVENT.replace('event', 'events'): {}}]

# one rule broken at a time, mostly
BREAK = ['missing iss', 'missing aud', 'missing iat', 'missing jti', 'missing events', 'nonce', 'nonce', 'events', 'events',
         'events', 'no subject', 'future', 'future', 'issuer', 'audience']


@st.composite
def token_claims(draw):
    now = NOW + draw(st.integers(0, 100000))
    kw = {}
    if draw(st.booleans()):
        kw['skew'] = draw(st.one_of(st.integers(0, 5), st.sampled_from([60, 300, 3600])))
    skew = kw.get('skew', 0)
    aud = draw(audiences)
    p = {'iss': ISS, 'aud': aud, 'iat': now + skew - draw(st.one_of(st.integers(0, 3), st.integers(0, 10 ** 6))),
         'jti': draw(gen.text), 'events': {EVENT: {}}}
    who = draw(st.sampled_from([['sub'], ['sid'], ['sub', 'sid']]))
    for w in who:
        p[w] = draw(gen.text)
    if draw(st.booleans()):
        kw['aud'] = draw(st.sampled_from(aud))
    if draw(st.booleans()):
        kw['iss'] = ISS
    broken = draw(st.lists(st.sampled_from(BREAK), max_size=1)) or draw(st.lists(st.sampled_from(BREAK), max_size=2))
    real = []
    for b in broken:
        if b.startswith('missing '):
            p.pop(b[8:], None)
            if b == 'missing iss':
                kw.pop('iss', None)
            if b == 'missing aud':
                kw.pop('aud', None)
            real.append(b)
        elif b == 'nonce':
            p['nonce'] = draw(st.sampled_from(['n', 'x' * 40, '0', 'null']))
            real.append(b)
        elif b == 'events':
            p['events'] = draw(st.sampled_from(BAD_EVENTS))
            real.append(b)
        elif b == 'no subject':
            p.pop('sub', None)
            p.pop('sid', None)
            real.append(b)
        elif b == 'future':
            p['iat'] = now + skew + draw(st.one_of(st.integers(1, 3), st.integers(1, 10 ** 6)))
            real.append(b)
        elif b == 'issuer':
            kw['iss'] = draw(st.sampled_from([OTHER, ISS + '/', ISS[:-1], ISS.upper(), '']))
            if 'iss' in p:
                real.append(b)
        elif b == 'audience':
            rest = [a for a in CLIENTS if a not in aud] + [aud[0] + 'x', aud[0][:-1], aud[0].upper()]
            rest = [a for a in rest if a not in aud]
            kw['aud'] = draw(st.sampled_from(rest))
            if 'aud' in p:
                real.append(b)
    if draw(st.integers(0, 3)) == 0:
        p[draw(st.sampled_from(['exp', 'azp', 'x', 'nonces', 'Nonce', 'event', 'auth_time', 'sub_id', 'sid_', 'subject',
                                'session_id', 'Sub', 'user']))] = draw(
            st.sampled_from([1, 'v', now]))
    return p, kw, now, sorted(real)


@st.composite
def claims_case(draw):
    p, kw, now, broken = draw(token_claims())
    return p, kw, now, broken, draw(st.sampled_from([0, 999999999])), draw(st.sampled_from(TZS)), draw(
        st.sampled_from(['dict', 'kwargs', 'json']))


def claims(c, rec):
    p, kw, now, broken, nsec, tz, how = c
    key = 'oidc.session:LogoutToken'
    cls = msgs.cls_of(key)
    vf.set_tz(tz)
    vf.clock.set(now, nsec)
    try:
        def build():
            if how == 'kwargs':
                return cls(set_defaults=False, **copy.deepcopy(p))
            if how == 'json':
                return cls(set_defaults=False).from_json(json.dumps(p))
            return msgs.build(key, copy.deepcopy(p))
        b = outcome(build)
        if b[0] == 'exc':
            rec.check(bool(broken), 'not even built: %r', b[1])
            return
        m = b[1]
        o = outcome(m.verify, **kw)
    finally:
        vf.clock.real()
        vf.set_tz('UTC')
    if broken:
        rec.check(o[0] == 'exc' or not o[1], 'accepted although: %s', broken)
    else:
        rec.check(o == ('ok', True), 'refused (%r) although every rule holds', o[1])
    for b in broken:
        rec.cls(('only ' if len(broken) == 1 else 'also ') + b)
    if not broken:
        rec.cls('accepted')
    if len(broken) < 2:
        rec.nontrivial()


SIGN = [None] * 6 + ['unsigned', 'unsigned', 'other key', 'issuer unknown', 'demanded algorithm', 'allowed algorithm',
                     'demanded none', 'altered', 'not a JWT', 'plain JSON', 'no key jar']


@st.composite
def request_case(draw):
    p, kw, now, broken = draw(token_claims())
    alg = draw(st.sampled_from(tok.ALGS))
    names = tok.keys_for(alg)
    signer = draw(st.sampled_from(names))
    other = draw(st.sampled_from([n for n in names if n != signer]))
    wrong = draw(st.sampled_from(SIGN))
    what = draw(st.integers(0, 1000))
    others = [a for a in tok.ALGS if a != alg]
    if draw(st.booleans()):
        kw['sigalg'] = alg
    if draw(st.integers(0, 2)) == 0:
        kw['allowed_sign_alg'] = alg
    if draw(st.integers(0, 3)) == 0:
        kw['allow_sign_alg_none'] = draw(st.booleans())
    if wrong in ('unsigned', 'plain JSON'):
        for k in ('sigalg', 'allowed_sign_alg', 'allow_sign_alg_none'):
            kw.pop(k, None)
        kw.update(draw(st.sampled_from([{}, {}, {'sigalg': 'none'}, {'allow_sign_alg_none': True},
                                        {'allow_sign_alg_none': False}, {'sigalg': alg},
                                        {'sigalg': 'none', 'allow_sign_alg_none': True}])))
    elif wrong == 'demanded algorithm':
        kw['sigalg'] = draw(st.sampled_from(others))
    elif wrong == 'allowed algorithm':
        kw['allowed_sign_alg'] = draw(st.sampled_from(others))
    elif wrong == 'demanded none':
        kw['sigalg'] = 'none'
    return p, kw, now, broken, alg, signer, other, wrong, what, draw(st.sampled_from(['dict', 'json', 'form']))


def request(c, rec):
    p, kw, now, broken, alg, signer, other, wrong, what, how = c
    key = 'oidc.session:BackChannelLogoutRequest'
    token = tok.sign(p, signer, alg, 'k1')
    spec = {ISS: [(signer, 'k1')], OTHER: [(other, 'k1')]}
    why = list(broken)
    if wrong in ('unsigned', 'plain JSON'):
        token = tok.sign(p, None, 'none') if wrong == 'unsigned' else json.dumps(p)
        if not (kw.get('sigalg') == 'none' or kw.get('allow_sign_alg_none')):
            why.append(wrong)
        elif wrong == 'plain JSON':
            return                  # whether that is an unsigned token is not decided
    elif wrong == 'other key':
        token = tok.sign(p, other, alg, 'k1')
        why.append(wrong)
    elif wrong == 'issuer unknown':
        spec = {OTHER: [(signer, 'k1')]}
        if not alg.startswith('HS'):
            spec[''] = [(signer, 'k1')]
        why.append(wrong)
    elif wrong == 'altered':
        h, b, s = token.split('.')
        token = '%s.%s.%s' % (h, tok.b64(dict(p, sub='root%d' % what)), s)
        why.append(wrong)
    elif wrong == 'not a JWT':
        token = ['x', 'a.b', 'a.b.c', token + '.x', '.'.join(token.split('.')[:2])][what % 5]
        why.append(wrong)
    elif wrong:
        why.append(wrong)
    if 'missing iss' in broken:
        spec[''] = spec[ISS] = [(signer, 'k1')]
    cls = msgs.cls_of(key)
    q = {'logout_token': token}
    if how == 'json':
        m = cls(set_defaults=False).from_json(json.dumps(q))
    elif how == 'form':
        from urllib.parse import urlencode
        m = cls(set_defaults=False).from_urlencoded(urlencode(q))
    else:
        m = msgs.build(key, q)
    kj = None if wrong == 'no key jar' else tok.jar(spec)
    vf.clock.set(now)
    try:
        o = outcome(m.verify, keyjar=kj, **kw)
    finally:
        vf.clock.real()
    if why:
        rec.check(o[0] == 'exc' or not o[1], 'request accepted although: %s', why)
    else:
        rec.check(o == ('ok', True), 'request refused: %r', o[1])
        rec.check(msgs.same(msgs.plain(m['__verified_logout_token']), p), 'verified token %r, claims %r',
                  msgs.plain(m['__verified_logout_token']), p)
    for b in why:
        rec.cls(('only ' if len(why) == 1 else 'also ') + b)
    if not why:
        rec.cls('accepted' + (' ' + wrong if wrong else ''))
    if len(why) < 2:
        rec.nontrivial()


# --- end session requests
@st.composite
def end_case(draw):
    p = {}
    if draw(st.integers(0, 3)):
        p['post_logout_redirect_uri'] = draw(st.one_of(st.sampled_from(['https://rp.example.com/', 'https://rp.example.com/?a=b', 'app:/x']), gen.text))
    if draw(st.booleans()):
        p['state'] = draw(gen.text)
    p.update(draw(st.dictionaries(gen.ident.filter(lambda k: k not in ('state', 'id_token_hint', 'post_logout_redirect_uri')), gen.text,
                                  max_size=2)))
    hint = draw(st.sampled_from([None, None, 'signed', 'signed', 'other key', 'unsigned', 'not a JWT']))
    alg = draw(st.sampled_from(tok.ALGS))
    signer = draw(st.sampled_from(tok.keys_for(alg)))
    return p, hint, alg, signer, draw(st.sampled_from([k for k in tok.keys_for(alg) if k != signer])), \
        draw(st.sampled_from(['dict', 'json', 'form'])), draw(st.permutations(sorted(p) + ['id_token_hint']))


def end(c, rec):
    p, hint, alg, signer, other, how, order = c
    claims = {'iss': ISS, 'sub': 'subject', 'aud': ['client1'], 'exp': NOW + 1000, 'iat': NOW - 10}
    q = dict(p)
    if hint:
        q['id_token_hint'] = 'x.y.z' if hint == 'not a JWT' else tok.sign(claims, None, 'none') if hint == 'unsigned' else \
            tok.sign(claims, other if hint == 'other key' else signer, alg, 'k1')
    q = {k: q[k] for k in order if k in q}
    cls = msgs.cls_of('oidc.session:EndSessionRequest')
    if how == 'json':
        m = cls().from_json(json.dumps(q))
    elif how == 'form':
        from urllib.parse import urlencode
        m = cls().from_urlencoded(urlencode(q)) if q else cls()
    else:
        m = cls(**q)
    vf.clock.set(NOW)
    try:
        o = outcome(m.verify, keyjar=tok.jar({ISS: [(signer, 'k1')]}), client_id='client1', iss=ISS)
    finally:
        vf.clock.real()
    bad = hint in ('other key', 'unsigned', 'not a JWT') or ('post_logout_redirect_uri' in p and not hint)
    if bad:
        rec.check(o[0] == 'exc' or not o[1], 'end session request with %s and hint %s accepted', sorted(p), hint)
        rec.check('__verified_id_token_hint' not in m, 'a hint that was refused counts as verified')
    else:
        rec.check(o == ('ok', True), 'end session request with %s and hint %s refused: %r', sorted(p), hint, o[1])
        rec.eq('__verified_id_token_hint' in m, bool(hint), 'verified hint there')
    rec.cls('end session %s, %s' % (hint or 'no hint', 'refused' if bad else 'accepted'))
    if 'post_logout_redirect_uri' in p or hint:
        rec.nontrivial()


TARGETS = [Target('end session', end_case(), end, quick=600, thorough=20000),
           Target('logout token', claims_case(), claims, quick=3500, thorough=120000),
           Target('logout request', request_case(), request, quick=2500, thorough=80000)]
