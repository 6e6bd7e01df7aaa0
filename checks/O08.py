"""Device authorization grant messages over their transports against a reference predicate of RFC 8628."""
import copy
import json
from urllib.parse import parse_qsl, urlencode

from hypothesis import strategies as st

import gen
import msgs
import vf
from vf import Target, outcome

RULE = ('a case is non-trivial if the message has all required parameters or lacks exactly one of them, or was derived '
        'from the message before it in the flow')
ASSUMPTIONS = ['an integer 0 for a required number is not decided', 'parameters are texts and numbers of the declared types']
MOD = 'oauth2.device_authorization:'
GRANT = 'urn:ietf:params:oauth:grant-type:device_code'
ASSERT = 'urn:ietf:params:oauth:client-assertion-type:jwt-bearer'
REQUEST = {'client_id': 's!', 'scope': 's'}
RESPONSE = {'device_code': 's!', 'user_code': 's!', 'verification_uri': 's!', 'verification_uri_complete': 's',
            'expires_in': 'i!', 'interval': 'i'}
TOKEN = ['grant_type', 'device_code', 'client_id', 'code', 'redirect_uri', 'client_secret', 'state',
         'client_assertion_type', 'client_assertion']


def transport(key, p, how):
    cls = msgs.cls_of(key)
    if how == 'json':
        return cls(set_defaults=False).from_json(json.dumps(p))
    if how == 'form':
        return cls(set_defaults=False).from_urlencoded(urlencode(p)) if p else cls(set_defaults=False)
    if how == 'kwargs':
        return cls(set_defaults=False, **p)
    if how == 'own form':
        m = cls(set_defaults=False).from_dict(copy.deepcopy(p))
        m.lax = True
        return cls(set_defaults=False).from_urlencoded(m.to_urlencoded()) if p else cls(set_defaults=False)
    if how == 'assign':
        m = cls(set_defaults=False)
        for k, v in p.items():
            m[k] = v
        return m
    return cls(set_defaults=False).from_dict(copy.deepcopy(p))


HOW = st.sampled_from(['json', 'form', 'own form', 'kwargs', 'assign', 'dict'])


@st.composite
def simple(draw):
    name, table = draw(st.sampled_from([('AuthorizationRequest', REQUEST), ('AuthorizationResponse', RESPONSE)]))
    p = {}
    few = draw(st.booleans())
    for n, c in table.items():
        if draw(st.integers(0, 9)) > (0 if few and c.endswith('!') else 4):
            p[n] = draw(gen.text if c[0] == 's' else gen.posint)
    return MOD + name, p, draw(HOW)


def plain_rules(c, rec):
    key, p, how = c
    table = REQUEST if key.endswith('Request') else RESPONSE
    o = outcome(transport, key, p, how)
    rec.check(o[0] == 'ok', '%s %r by %s refused: %r', key, p, how, o[1])
    m = o[1]
    for n in p:
        if table[n][0] == 'i' and 'form' not in how:
            rec.check(type(m[n]) is int, '%s is %r', n, m[n])
    missing = [n for n, t in table.items() if t.endswith('!') and n not in p]
    o = outcome(m.verify)
    if missing:
        rec.check(o[0] == 'exc' or not o[1], '%s without %r accepted', key, missing)
        rec.check(outcome(m.to_urlencoded)[0] == 'exc', '%s without %r sent', key, missing)
    else:
        rec.check(o == ('ok', True), '%s %r refused: %r', key, p, o[1])
        rec.eq(sorted(parse_qsl(m.to_urlencoded(), keep_blank_values=True)), sorted((n, str(v)) for n, v in p.items()),
               'sent')
    rec.cls('%s %s' % (key.split(':')[1], 'complete' if not missing else 'incomplete'))
    if len(missing) < 2:
        rec.nontrivial()


@st.composite
def token(draw):
    p = {}
    base = draw(st.sampled_from([['grant_type', 'device_code', 'client_id'], ['grant_type', 'code', 'redirect_uri'],
                                 ['grant_type', 'device_code', 'client_id', 'code', 'redirect_uri'], ['grant_type']]))
    names = set(base)
    for n in draw(st.lists(st.sampled_from(base), max_size=2)):
        names.discard(n)
    names |= set(draw(st.lists(st.sampled_from(TOKEN), max_size=2)))
    for n in draw(st.permutations(sorted(names))):
        p[n] = draw(gen.text)
    if 'grant_type' in p:
        p['grant_type'] = draw(st.one_of(st.just(GRANT), st.just('authorization_code'), gen.text))
    if 'client_assertion_type' in p and draw(st.integers(0, 3)):
        p['client_assertion_type'] = ASSERT
    empty = draw(st.sampled_from([None] * 4 + sorted(p))) if p else None
    return p, draw(HOW), empty, draw(st.booleans())


def token_rules(c, rec):
    p, how, empty, defaults = c
    key = MOD + 'AccessTokenRequest'
    m = transport(key, p, how)
    if defaults:
        m.set_defaults()
        p = dict(p)
        p.setdefault('grant_type', 'authorization_code')
    if empty:
        m.update({empty: ''})
    before = msgs.plain(m)

    def has(n):
        return n in p and n != empty
    if not has('grant_type'):
        ok = False
    elif 'device_code' in p:
        # an empty device code is no device code: what then must be there is not decided
        ok = has('client_id') if has('device_code') else None
    else:
        ok = has('code') and has('redirect_uri')
    if has('client_assertion_type') and p['client_assertion_type'] != ASSERT:
        ok = False
    o = outcome(m.verify)
    if ok:
        rec.check(o == ('ok', True), '%r refused: %r', before, o[1])
        if not empty:
            rec.eq(dict(parse_qsl(m.to_urlencoded(), keep_blank_values=True)), p, 'sent')
    elif ok is False:
        rec.check(o[0] == 'exc' or not o[1], '%r accepted', before)
    rec.eq(msgs.plain(m), before, 'message after verify()')
    rec.cls('%s %s' % ('device' if 'device_code' in p else 'code', {True: 'accepted', False: 'refused', None: 'open'}[ok]))
    rec.nontrivial()


@st.composite
def flow(draw):
    return (draw(gen.text), draw(gen.text), draw(gen.text), draw(gen.posint), draw(st.one_of(st.none(), gen.posint)),
            draw(st.dictionaries(gen.ident.filter(lambda k: k not in RESPONSE and '#' not in k and k not in (
                'self', 'set_defaults') and k not in TOKEN), gen.text, max_size=2)))


def whole(c, rec):
    """Request, response and token request, each one as the other side reads it."""
    client, dcode, ucode, expires, interval, extra = c
    import oidcmsg.oauth2.device_authorization as da
    req = da.AuthorizationRequest(client_id=client)
    seen = da.AuthorizationRequest().from_urlencoded(req.to_urlencoded())
    rec.eq(outcome(seen.verify), ('ok', True), 'request')
    rec.eq(seen['client_id'], client, 'client')
    p = dict(extra, device_code=dcode, user_code=ucode, verification_uri='https://example.com/device', expires_in=expires)
    if interval is not None:
        p['interval'] = interval
    resp = da.AuthorizationResponse().from_json(da.AuthorizationResponse(**p).to_json())
    rec.eq(outcome(resp.verify), ('ok', True), 'response')
    rec.eq(msgs.plain(resp), p, 'response read')
    tok = da.AccessTokenRequest(grant_type=GRANT, device_code=resp['device_code'], client_id=seen['client_id'])
    rec.eq(outcome(tok.verify), ('ok', True), 'token request')
    got = da.AccessTokenRequest(set_defaults=False).from_urlencoded(tok.to_urlencoded())
    rec.eq(msgs.plain(got), {'grant_type': GRANT, 'device_code': dcode, 'client_id': client}, 'token request read')
    rec.eq(outcome(got.verify), ('ok', True), 'token request read')
    del got['client_id']
    rec.eq(outcome(got.verify)[0], 'exc', 'token request without client')
    # for polling the same request is sent again
    rec.eq(tok.to_urlencoded(), tok.copy().to_urlencoded(), 'sent again')
    rec.nontrivial()


TARGETS = [Target('request and response', simple(), plain_rules, quick=500, thorough=20000),
           Target('token request', token(), token_rules, quick=1200, thorough=60000),
           Target('flow', flow(), whole, quick=300, thorough=10000)]
