"""Planted and stale verified entries: histories of set token / plant / verify on one message, against the payload of the
token carried at the time."""
import copy
import json
from urllib.parse import urlencode

from hypothesis import strategies as st

import msgs
import tok
import vf
from vf import Target, outcome

RULE = 'a case is non-trivial if an entry was planted or a verification follows an earlier one'
ASSUMPTIONS = ['nothing is said about entries left behind by a verification that fails']
NOW = 1700000000
ISS, CLIENT = 'https://op.example.org', 'client1'
IDT = {'iss': ISS, 'sub': 'subject', 'aud': [CLIENT], 'exp': NOW + 600, 'iat': NOW - 5}
LOGOUT = {'iss': ISS, 'sub': 'subject', 'aud': [CLIENT], 'iat': NOW - 5, 'jti': 'id1',
          'events': {'http://schemas.openid.net/event/backchannel-logout': {}}}
REQ = {'iss': CLIENT, 'response_type': 'code', 'client_id': CLIENT, 'redirect_uri': 'https://rp/cb', 'scope': 'openid',
       'state': 'inner'}
OUTER = {'response_type': 'code', 'client_id': CLIENT, 'redirect_uri': 'https://rp/cb', 'scope': 'openid', 'state': 'outer'}

# class -> (other parameters, {token parameter: (entry, kind, optional)})
CARRIERS = {
    'oidc:AccessTokenResponse': ({'access_token': 'a', 'token_type': 'Bearer'},
                                 {'id_token': ('__verified_id_token', 'idt', True)}),
    'oidc:AuthorizationResponse': ({'state': 's'}, {'id_token': ('__verified_id_token', 'idt', True)}),
    'oidc:MessageWithIdToken': ({}, {'id_token': ('__verified_id_token', 'idt', False)}),
    'oidc.session:RefreshSessionRequest': ({'redirect_url': 'https://rp/', 'state': 's'},
                                           {'id_token': ('__verified_id_token', 'idt', False)}),
    'oidc.session:RefreshSessionResponse': ({'state': 's'}, {'id_token': ('__verified_id_token', 'idt', False)}),
    'oidc.session:CheckSessionRequest': ({}, {'id_token': ('__verified_id_token', 'idt', False)}),
    'oidc.session:EndSessionRequest': ({'state': 's'}, {'id_token_hint': ('__verified_id_token_hint', 'idt', True)}),
    'oidc.session:BackChannelLogoutRequest': ({}, {'logout_token': ('__verified_logout_token', 'logout', False)}),
    'oidc:AuthorizationRequest': (OUTER, {'request': ('__verified_request', 'req', True),
                                          'id_token_hint': ('verified_id_token_hint', 'idt', True)}),
    'oidc:OpenIDRequest': (OUTER, {'request': ('__verified_request', 'req', True),
                                   'id_token_hint': ('verified_id_token_hint', 'idt', True)}),
    'oauth2:PushedAuthorizationRequest': (OUTER, {'request': ('__verified_request', 'req', True)}),
    'oauth2:JWTSecuredAuthorizationRequest': (dict(OUTER, request_uri='https://rp/r'),
                                              {'request': ('__verified_request', 'req', True)}),
}
CLS_OF = {'idt': 'oidc:IdToken', 'logout': 'oidc.session:LogoutToken'}
FAKE = {'sub': 'admin', 'iss': ISS, 'aud': [CLIENT], 'exp': NOW + 600, 'iat': NOW, 'planted': 'yes'}
token_state = st.tuples(st.sampled_from(['good', 'good', 'good', 'absent', 'forged', 'stale', 'junk']), st.integers(0, 3))


@st.composite
def history(draw):
    carrier = draw(st.sampled_from(sorted(CARRIERS)))
    rest, tokens = CARRIERS[carrier]
    steps = []
    for i in range(draw(st.integers(1, 4))):
        ts = {p: draw(token_state) for p in tokens}
        plant = draw(st.sampled_from([None, 'dict', 'text', 'list', 'message', 'number'])) if i == 0 or draw(
            st.booleans()) else None
        # planted inside the request object, too
        inner = draw(st.booleans())
        inner_hint = draw(st.sampled_from(['absent', 'absent', 'good', 'forged']))
        steps.append((ts, plant, inner, inner_hint))
    return carrier, steps, draw(st.sampled_from(['dict', 'json', 'form', 'kwargs', 'set']))


def make_token(kind, state, n, inner, inner_hint, entries):
    """-> (token, claims)"""
    if kind == 'req':
        claims = dict(REQ, state='inner%d' % n)
        if inner:
            for e in entries:
                claims[e] = dict(FAKE)
        if inner_hint != 'absent':
            claims['id_token_hint'] = tok.sign(dict(IDT, sub='in%d' % n), 'rsa1' if inner_hint == 'good' else 'rsa2',
                                               'RS256', 'k1')
        good, bad = 'ec1', 'ec2'
        alg = 'ES256'
    else:
        claims = dict(IDT if kind == 'idt' else LOGOUT, sub='s%d' % n)
        if kind == 'idt' and inner:
            claims['__verified_id_token'] = 'x'
        good, bad, alg = 'rsa1', 'rsa2', 'RS256'
    if state == 'junk':
        return 'junk%d' % n, None
    if state == 'stale' and kind == 'idt':
        claims = dict(claims, exp=NOW - 5000)
    return tok.sign(claims, bad if state == 'forged' else good, alg, 'k1'), claims


PLANTS = {'dict': lambda: dict(FAKE), 'text': lambda: 'yes', 'list': lambda: [dict(FAKE)], 'number': lambda: 1}


def check(c, rec):
    carrier, steps, how = c
    rest, tokens = CARRIERS[carrier]
    cls = msgs.cls_of(carrier)
    entries = sorted({e for e, _, _ in tokens.values()})
    kj = tok.jar({ISS: [('rsa1', 'k1')], CLIENT: [('ec1', 'k1')]})
    oidc_request = carrier in ('oidc:AuthorizationRequest', 'oidc:OpenIDRequest')
    m = None
    for i, (ts, plant, inner, inner_hint) in enumerate(steps):
        params = dict(rest)
        claims = {}
        for p, (entry, kind, optional) in tokens.items():
            state, n = ts[p]
            if state != 'absent':
                params[p], claims[p] = make_token(kind, state, n, inner, inner_hint if oidc_request else 'absent', entries)
        if plant:
            for e in entries:
                if plant == 'message':
                    params[e] = msgs.build('oidc:IdToken', dict(FAKE))
                else:
                    params[e] = PLANTS[plant]()
        if m is None:
            if how == 'json' and plant != 'message':
                m = cls(set_defaults=False).from_json(json.dumps(params))
            elif how == 'form' and plant in (None, 'text'):
                m = cls(set_defaults=False).from_urlencoded(urlencode(params))
            elif how == 'kwargs':
                m = cls(set_defaults=False, **copy.deepcopy(params))
            elif how == 'set':
                m = cls(set_defaults=False)
                for k, v in params.items():
                    m[k] = v
            else:
                m = msgs.build(carrier, params)
        else:
            # the same message again, with other tokens
            for k in list(m.keys()):
                if k not in params and k not in entries:
                    del m[k]
            for k, v in params.items():
                m[k] = v
        carried = {p: m.get(p) for p in tokens}
        vf.clock.set(NOW)
        try:
            o = outcome(m.verify, keyjar=kj)
        finally:
            vf.clock.real()
        ok = o[0] == 'ok' and bool(o[1])
        bad = [p for p in carried if carried[p] is not None and (ts[p][0] in ('forged', 'junk') or
                                                                 ts[p][0] == 'stale' and tokens[p][1] == 'idt' and
                                                                 not oidc_request)]
        if oidc_request and carried.get('request') is not None:
            # strict merging: what counts is inside the request object
            bad = [p for p in bad if p == 'request']
            if inner_hint == 'forged' and ts['request'][0] != 'junk':
                bad.append('id_token_hint of the request object')
        if bad:
            rec.check(not ok, 'step %d: accepted with bad %s', i, bad)
        rec.cls('%s %s' % ('accepted' if ok else 'refused', carrier.split(':')[1]))
        if not ok:
            continue
        for p, (entry, kind, optional) in tokens.items():
            inside = False
            if oidc_request and p == 'id_token_hint' and carried.get('request') is not None:
                inside = inner_hint == 'good'
                there, content = inside, dict(IDT, sub='in%d' % ts['request'][1])
            else:
                there, content = carried[p] is not None, claims.get(p)
            if not there:
                rec.check(entry not in m, 'step %d: %s presented although no %s was verified: %r', i, entry, p, m.get(entry))
                rec.cls('no entry' + (' after planting' if plant else ''))
                continue
            rec.check(entry in m, 'step %d: %s missing', i, entry)
            ckey = CLS_OF.get(kind) or ('oidc:OpenIDRequest' if oidc_request else 'oauth2:AuthorizationRequest')
            want = msgs.plain(msgs.build(ckey, copy.deepcopy(content)))
            got = msgs.plain(m[entry])
            if not isinstance(got, dict):
                rec.check(False, 'step %d: %s is %r', i, entry, got)
            rec.check(msgs.same(got, want), 'step %d: %s holds %r, the token %r', i, entry, got, want)
            rec.cls('entry' + (' after planting' if plant else ''))
        if plant or i:
            rec.nontrivial()


TARGETS = [Target('verified entries', history(), check, quick=3000, thorough=100000)]
