"""OIDC authorization requests against a reference predicate written from OpenID Connect Core 3.1.2.1."""
import copy
import json
from urllib.parse import urlencode

from hypothesis import strategies as st

import gen
import msgs
import tok
from vf import Target, outcome

RULE = 'a case is non-trivial if at most one rule is broken and a rule on scope, prompt, display or nonce applies'
ASSUMPTIONS = ['no request object (that is O02)', 'a list parameter that is empty is not present']
REQ = ['client_id', 'redirect_uri', 'response_type', 'scope']
RT = ['code', 'id_token', 'token', 'none', 'id_tokens', 'ID_TOKEN', 'id', 'id-token', 'xid_token']
SCOPES = ['openid', 'offline_access', 'profile', 'email', 'openid2', 'Openid', 'open', 'offline', 'Offline_access',
          'offline_accessx', 'address', 'åäö']
PROMPTS = ['none', 'login', 'consent', 'select_account']
BAD_PROMPTS = ['None', 'NONE', 'logon', 'consents', 'select-account', 'create', 'n', 'consent,login', 'nonelogin']
DISPLAYS = ['page', 'popup', 'touch', 'wap']
BAD_DISPLAYS = ['Page', 'pages', 'pop', 'touc', 'wapp', 'none', 'page popup', ' page', 'mobile']
NONCES = ['n1', 'n2', 'n', 'N1', 'n1 ', 'åäö', '0']


@st.composite
def case(draw):
    p = {'client_id': draw(gen.simple), 'redirect_uri': draw(gen.text)}
    p['response_type'] = draw(st.one_of(
        st.sampled_from([['code'], ['id_token'], ['code', 'id_token'], ['id_token', 'token'], ['token', 'code'],
                         ['code', 'id_token', 'token'], ['none']]),
        st.lists(st.sampled_from(RT), min_size=1, max_size=3, unique=True)))
    sc = draw(st.lists(st.sampled_from(SCOPES[1:]), max_size=3, unique=True))
    if draw(st.integers(0, 5)):
        sc.insert(draw(st.integers(0, len(sc))), 'openid')
    if draw(st.integers(0, 2)) == 0 and 'offline_access' not in sc:
        sc.insert(draw(st.integers(0, len(sc))), 'offline_access')
    p['scope'] = sc or ['openid']
    if draw(st.integers(0, 2)):
        pr = draw(st.one_of(st.sampled_from([['none'], ['consent'], ['login', 'consent']]),
                            st.lists(st.sampled_from(PROMPTS), min_size=1, max_size=4, unique=True)))
        if draw(st.integers(0, 7)) == 0:
            pr.insert(draw(st.integers(0, len(pr))), draw(st.sampled_from(BAD_PROMPTS)))
        p['prompt'] = pr
    if 'offline_access' in p['scope'] and draw(st.integers(0, 2)):
        p['prompt'] = draw(st.sampled_from([['consent'], ['consent', 'login'], ['login', 'consent']]))
    if draw(st.booleans()):
        p['display'] = draw(st.sampled_from(DISPLAYS * 4 + BAD_DISPLAYS))
    n = draw(st.sampled_from(['same', 'same', 'request', 'expected', 'none', 'other']))
    kw = {}
    if n in ('same', 'request', 'other'):
        p['nonce'] = draw(st.sampled_from(NONCES))
    if n == 'same':
        kw['nonce'] = p['nonce']
    elif n in ('expected', 'other'):
        kw['nonce'] = draw(st.sampled_from(NONCES))
    for k in draw(st.lists(st.sampled_from(['state', 'max_age', 'ui_locales', 'login_hint', 'acr_values', 'response_mode',
                                            'claims', 'registration', 'x']), max_size=3, unique=True)):
        p[k] = {'max_age': draw(st.sampled_from([0, 1, 3600])), 'ui_locales': ['sv', 'en'], 'acr_values': ['1', '2'],
                'claims': {'userinfo': {'email': None}}, 'registration': {'client_name': 'x'}}.get(k, 'v')
    if draw(st.integers(0, 6)) == 0:
        del p[draw(st.sampled_from(REQ))]
    p = {k: p[k] for k in draw(st.permutations(list(p)))}
    return draw(st.sampled_from(['oidc:AuthorizationRequest', 'oidc:OpenIDRequest'])), p, kw, draw(
        st.sampled_from(['dict', 'json', 'form', 'kwargs', 'text']))


def rules(p, kw):
    broken, applied = [], []
    broken += ['missing ' + r for r in REQ if r not in p]
    if 'display' in p:
        applied.append('display')
        if p['display'] not in DISPLAYS:
            broken.append('display')
    if 'prompt' in p:
        applied.append('prompt')
        if any(v not in PROMPTS for v in p['prompt']):
            broken.append('prompt value')
        if 'none' in p['prompt'] and len(p['prompt']) > 1:
            broken.append('none and something else')
    if 'scope' in p:
        if not any(s == 'openid' for s in p['scope']):
            broken.append('no openid')
        if any(s == 'offline_access' for s in p['scope']):
            applied.append('offline access')
            if not any(v == 'consent' for v in p.get('prompt', [])):
                broken.append('offline access without consent')
    if any(t == 'id_token' for t in p.get('response_type', [])):
        applied.append('nonce')
        if 'nonce' not in p:
            broken.append('no nonce')
        elif 'nonce' in kw and kw['nonce'] != p['nonce']:
            broken.append('nonce')
    return broken, applied


def as_sent(p):
    """The way the lists travel."""
    return {k: ' '.join(v) if isinstance(v, list) else v for k, v in p.items()}


def check(c, rec):
    key, p, kw, how = c
    broken, applied = rules(p, kw)
    cls = msgs.cls_of(key)
    if how == 'json':
        m = cls(set_defaults=False).from_json(json.dumps(as_sent(p)))
    elif how == 'form':
        m = cls(set_defaults=False).from_urlencoded(urlencode(
            {k: json.dumps(v) if isinstance(v, dict) else v for k, v in as_sent(p).items()}))
    elif how == 'kwargs':
        m = cls(set_defaults=False, **copy.deepcopy(p))
    elif how == 'text':
        m = cls(set_defaults=False, **as_sent(p))
    else:
        m = msgs.build(key, copy.deepcopy(p))
    o = outcome(m.verify, keyjar=tok.jar({}), **kw)
    ok = o[0] == 'ok' and bool(o[1])
    if broken:
        rec.check(not ok, 'accepted although: %s', broken)
        o = outcome(m.verify, keyjar=tok.jar({}), **kw)
        rec.check(o[0] == 'exc' or not o[1], 'accepted the second time although: %s', broken)
    else:
        rec.check(o == ('ok', True), 'refused (%r) although every rule holds', o[1])
        rec.check(outcome(m.verify, keyjar=tok.jar({}), **kw) == ('ok', True), 'refused the second time')
    for b in broken:
        rec.cls(('only ' if len(broken) == 1 else 'also ') + b)
    if not broken:
        for a in applied or ['nothing special']:
            rec.cls('accepted with ' + a)
    if len(broken) < 2 and (applied or broken):
        rec.nontrivial()


TARGETS = [Target('reference predicate', case(), check, quick=5000, thorough=200000)]
