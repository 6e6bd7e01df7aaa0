"""Registration requests and responses against reference predicates."""
import copy
import json

from hypothesis import strategies as st

import gen
import msgs
import valid
from vf import Target, outcome

RULE = 'a case is non-trivial if one of the related parameters is present and at most one rule is broken'
ASSUMPTIONS = ['the scheme of an initiate-login URI is written in lower case']
TRIPLES = ['request_object_encryption', 'id_token_encrypted_response', 'userinfo_encrypted_response']
ALGS = ['RSA-OAEP', 'RSA1_5', 'ECDH-ES+A128KW', 'dir', 'none']
ENCS = ['A128CBC-HS256', 'A256GCM', 'A256CBC-HS512', 'x']
GOOD_URI = ['https://rp.example.com/login', 'https://rp', 'https://[::1]:8443/x?y#z', 'https://rp.example.com/http:', 'https:a']
BAD_URI = ['http://rp.example.com/login', 'httpsx://rp', 'http://https:/', 'ftp://rp', 'rp.example.com', '//rp', '/login',
           'htt', 's://rp', 'xhttps://rp', 'http', 'shttp://rp', 'custom:https://rp', 'http://rp.example.com/?u=https://rp']
APPT = ['native', 'web']
SUBT = ['public', 'pairwise']
SPECIAL = {'initiate_login_uri', 'token_endpoint_auth_signing_alg', 'application_type', 'subject_type', 'redirect_uris',
           'registration_client_uri', 'registration_access_token', 'client_id'} | {
    t + s for t in TRIPLES for s in ('_alg', '_enc')}
RULES = ['redirect_uris', 'application_type', 'subject_type', 'initiate_login_uri', 'enc without alg', 'signing none']


@st.composite
def request(draw):
    key = 'oidc:RegistrationRequest'
    spec = msgs.SPECS[key]
    p = {'redirect_uris': draw(msgs.value_for('L'))}
    other = [n for n in spec.params if n not in SPECIAL]
    for n in draw(st.lists(st.sampled_from(other), max_size=4, unique=True)):
        p[n] = draw(msgs.value_for(spec.params[n]))
    for t in TRIPLES:
        how = draw(st.sampled_from(['neither', 'neither', 'alg', 'both']))
        if how != 'neither':
            p[t + '_alg'] = draw(st.sampled_from(ALGS))
        if how == 'both':
            p[t + '_enc'] = draw(st.sampled_from(ENCS))
    if draw(st.booleans()):
        p['initiate_login_uri'] = draw(st.sampled_from(GOOD_URI))
    if draw(st.booleans()):
        p['token_endpoint_auth_signing_alg'] = draw(st.sampled_from(['RS256', 'ES256', 'HS256', 'nonexistent', 'xnone', 'non']))
    if draw(st.booleans()):
        p['application_type'] = draw(st.sampled_from(APPT))
    if draw(st.booleans()):
        p['subject_type'] = draw(st.sampled_from(SUBT))
    broken = draw(st.sampled_from([[], [], [], None]))
    if broken is None:
        broken = draw(st.lists(st.sampled_from(RULES), min_size=1, max_size=2, unique=True))
    for b in broken:
        if b == 'redirect_uris':
            del p[b]
        elif b in ('application_type', 'subject_type'):
            p[b] = draw(st.sampled_from(['Web', 'webb', 'public', 'native', 'pairwise', 'PUBLIC', 'pair', 'web native']).filter(
                lambda v: v not in (APPT if b == 'application_type' else SUBT)))
        elif b == 'initiate_login_uri':
            p[b] = draw(st.sampled_from(BAD_URI))
        elif b == 'enc without alg':
            t = draw(st.sampled_from(TRIPLES))
            p.pop(t + '_alg', None)
            p[t + '_enc'] = draw(st.sampled_from(ENCS))
        else:
            p['token_endpoint_auth_signing_alg'] = 'none'
    p.update(draw(valid.extras(key, 2)))
    p = {k: p[k] for k in draw(st.permutations(list(p)))}
    return p, sorted(broken), draw(st.sampled_from(['dict', 'json', 'kwargs', 'defaults']))


def check_request(c, rec):
    p, broken, how = c
    cls = msgs.cls_of('oidc:RegistrationRequest')
    if how == 'json':
        m = cls(set_defaults=False).from_json(json.dumps(p))
    elif how == 'kwargs':
        m = cls(set_defaults=False, **copy.deepcopy(p))
    elif how == 'defaults':
        m = cls(**copy.deepcopy(p))
        p = dict({'application_type': 'web', 'response_types': ['code']}, **p)
    else:
        m = msgs.build('oidc:RegistrationRequest', copy.deepcopy(p))
    o = outcome(m.verify)
    if broken:
        rec.check(o[0] == 'exc' or not o[1], 'registration request accepted although: %s', broken)
    else:
        rec.check(o == ('ok', True), 'registration request refused: %r', o[1])
        want = dict(p)
        for t in TRIPLES:
            if t + '_alg' in p and t + '_enc' not in p:
                want[t + '_enc'] = 'A128CBC-HS256'
        rec.check(msgs.same(msgs.plain(m), want), 'after verification %r, expected %r', msgs.plain(m), want)
        rec.check(outcome(m.verify) == ('ok', True), 'refused the second time')
        rec.check(msgs.same(msgs.plain(m), want), 'changed by the second verification')
        if len(want) > len(p):
            rec.cls('enc supplied')
    for b in broken or ['accepted']:
        rec.cls(('only ' if len(broken) == 1 else '') + b)
    if len(broken) < 2 and set(p) & SPECIAL:
        rec.nontrivial()


@st.composite
def response(draw):
    key = 'oidc:RegistrationResponse'
    spec = msgs.SPECS[key]
    p = {}
    other = [n for n in spec.params if n not in ('client_id', 'registration_client_uri', 'registration_access_token',
                                                 'redirect_uris')]
    for n in draw(st.lists(st.sampled_from(other), max_size=5, unique=True)):
        p[n] = draw(valid.err_text if n == 'error_description' else msgs.value_for(spec.params[n]))
    if draw(st.integers(0, 9)):
        p['redirect_uris'] = draw(msgs.value_for('L'))
    for n in ('client_id', 'registration_client_uri', 'registration_access_token'):
        if draw(st.integers(0, 4 if n == 'client_id' else 1)):
            p[n] = draw(gen.text)
    p.update(draw(valid.extras(key, 2)))
    p = {k: p[k] for k in draw(st.permutations(list(p)))}
    return p, draw(st.booleans())


def check_response(c, rec):
    p, js = c
    cls = msgs.cls_of('oidc:RegistrationResponse')
    m = cls(set_defaults=False).from_json(json.dumps(p)) if js else msgs.build('oidc:RegistrationResponse', copy.deepcopy(p))
    one = ('registration_client_uri' in p) != ('registration_access_token' in p)
    o = outcome(m.verify)
    if one or 'client_id' not in p or 'redirect_uris' not in p:
        rec.check(o[0] == 'exc' or not o[1], 'registration response accepted: %r', p)
    else:
        rec.check(o == ('ok', True), 'registration response refused: %r', o[1])
        rec.check(msgs.same(msgs.plain(m), p), 'changed by verification: %r', msgs.plain(m))
    rec.cls('%s client id, %s' % ('with' if 'client_id' in p else 'without', 'one of the two' if one else 'both' if
                                  'registration_client_uri' in p else 'neither'))
    if not one or 'client_id' in p:
        rec.nontrivial()


TARGETS = [Target('request', request(), check_request, quick=3000, thorough=100000),
           Target('response', response(), check_response, quick=1500, thorough=50000)]
