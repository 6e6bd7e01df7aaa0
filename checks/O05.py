"""Provider metadata against a reference predicate written from OpenID Connect Discovery, and defaults."""
import copy
import json

from hypothesis import strategies as st

import gen
import msgs
import valid
from spec import SPECS
from vf import Target, outcome

RULE = ('a case is non-trivial if at most one rule is broken; for character sets, if one text is admitted and one '
        'refused')
ASSUMPTIONS = ['issuers with an empty query or fragment component (a trailing ? or #) are not decided',
               'scope values are non-empty']
KEY = 'oidc:ProviderConfigurationResponse'
REQ = ['issuer', 'authorization_endpoint', 'jwks_uri', 'response_types_supported', 'subject_types_supported',
       'id_token_signing_alg_values_supported']
SPECIAL = set(REQ) | {'scopes_supported', 'token_endpoint', 'error', 'error_description', 'error_uri'}
RULES = ['missing'] * 3 + ['no openid', 'scope character', 'scope character', 'scope character', 'scheme', 'query', 'fragment',
                           'no RS256', 'no token endpoint', 'no token endpoint']
HOSTS = ['op.example.org', 'op.example.org:8443', 'localhost', '[::1]', '127.0.0.1:80', 'user@op.example.org', 'åäö.example']
PATHS = ['', '/', '/a', '/a/b/', '/a;b=c', '/%3Fa', '/%23', '/a=b&c', '/http:/']
bad_char = st.one_of(st.sampled_from(' "\\\x7f\x00\t\n\x1f\x20\x80åé€\u2028\xa0\x22\x5c'),
                     st.characters(blacklist_categories=('Cs',)).filter(lambda ch: not 0x20 < ord(ch) < 0x7f),
                     st.integers(0, 0x20).map(chr), st.integers(0x7f, 0x120).map(chr))


@st.composite
def case(draw):
    spec = SPECS[KEY]
    p = {'authorization_endpoint': draw(gen.text), 'jwks_uri': draw(gen.text),
         'subject_types_supported': draw(msgs.value_for('L'))}
    scheme, query, frag = 'https', '', ''
    p['id_token_signing_alg_values_supported'] = draw(st.permutations(['RS256'] + draw(st.lists(st.sampled_from(
        ['none', 'ES256', 'HS256', 'RS384', 'PS256', 'rs256']), max_size=3))))
    p['response_types_supported'] = draw(st.lists(st.sampled_from(
        ['code', 'id_token', 'token id_token', 'code id_token token', 'id_token code', 'token', 'none']), min_size=1,
        max_size=3))
    code = any('code' in r.split() for r in p['response_types_supported'])
    if code or draw(st.booleans()):
        p['token_endpoint'] = draw(gen.text)
    if draw(st.integers(0, 2)):
        p['scopes_supported'] = draw(st.permutations(['openid'] + draw(st.lists(valid.scope_token, max_size=3))))
    for n in draw(st.lists(st.sampled_from([n for n in spec.params if n not in SPECIAL]), max_size=5, unique=True)):
        p[n] = draw(msgs.value_for(spec.params[n]))
    kw = draw(st.sampled_from([{}, {}, {'allow_http': True}, {'allow_http': False}]))
    broken = draw(st.sampled_from([0, 0, 1, 1, 1, 2]))
    broken = draw(st.lists(st.sampled_from(RULES), min_size=broken, max_size=broken, unique=True))
    real = []
    gone = None
    for b in broken:
        if b == 'missing':
            gone = draw(st.sampled_from(REQ))
            real.append('missing ' + gone)
        elif b == 'no openid':
            p['scopes_supported'] = draw(st.lists(valid.scope_token.filter(lambda s: s != 'openid'), min_size=1, max_size=3))
            real.append(b)
        elif b == 'scope character':
            t = draw(valid.scope_token)
            i = draw(st.integers(0, len(t)))
            p['scopes_supported'] = draw(st.permutations([t[:i] + draw(bad_char) + t[i:]] + p.get('scopes_supported',
                                                                                                ['openid'])))
            real.append(b)
        elif b == 'scheme':
            scheme = draw(st.sampled_from(['http', 'ftp', 'httpss', 'xhttps', 'custom', 'ws']))
            if not kw.get('allow_http'):
                real.append(b)
        elif b == 'query':
            query = '?' + draw(st.sampled_from(['a=b', 'a', 'a=b&c=d', '/', '=']))
            real.append(b)
        elif b == 'fragment':
            frag = '#' + draw(st.sampled_from(['a', 'a=b', '/', '?a']))
            real.append(b)
        elif b == 'no RS256':
            p['id_token_signing_alg_values_supported'] = draw(st.lists(st.sampled_from(
                ['none', 'ES256', 'HS256', 'RS384', 'RS512', 'PS256', 'rs256', 'RS2567', 'RS25', 'RS256 ES256']),
                min_size=1, max_size=3))
            real.append(b)
        elif b == 'no token endpoint':
            p.pop('token_endpoint', None)
            p['response_types_supported'] = draw(st.permutations(draw(st.sampled_from(
                [['code'], ['code id_token'], ['id_token', 'code token'], ['token code', 'token'], ['id_token code']]))))
            real.append(b)
    p['issuer'] = scheme + '://' + draw(st.sampled_from(HOSTS)) + draw(st.sampled_from(PATHS)) + query + frag
    if gone:
        del p[gone]
    p.update(draw(valid.extras(KEY, 1)))
    p = {k: p[k] for k in draw(st.permutations(list(p)))}
    return p, kw, sorted(real), draw(st.sampled_from(['dict', 'json', 'defaults']))


def check(c, rec):
    p, kw, broken, how = c
    cls = msgs.cls_of(KEY)
    want = dict(p)
    if how == 'json':
        m = cls(set_defaults=False).from_json(json.dumps(p))
    elif how == 'defaults':
        m = cls(**copy.deepcopy(p))
        for k, v in SPECS[KEY].defaults.items():
            want.setdefault(k, v)
        rec.check(msgs.same(msgs.plain(m), want), 'new metadata: %r, expected %r', msgs.plain(m), want)
    else:
        m = msgs.build(KEY, copy.deepcopy(p))
    o = outcome(m.verify, **kw)
    if broken:
        rec.check(o[0] == 'exc' or not o[1], 'provider metadata accepted although: %s', broken)
    else:
        rec.check(o == ('ok', True), 'provider metadata refused: %r', o[1])
        rec.check(msgs.same(msgs.plain(m), want), 'changed by verification: %r', msgs.plain(m))
    for b in broken or ['accepted %s' % kw]:
        rec.cls(('only ' if len(broken) == 1 else 'also ' if broken else '') + b)
    if len(broken) < 2:
        rec.nontrivial()


def characters(c, rec):
    """Every character as and in a scope."""
    lo, hi = c
    base = {'issuer': 'https://op', 'authorization_endpoint': 'a', 'jwks_uri': 'j', 'response_types_supported': ['token'],
            'subject_types_supported': ['public'], 'id_token_signing_alg_values_supported': ['RS256']}
    for cp in range(lo, hi):
        if 0xd800 <= cp < 0xe000:
            continue
        ok = 0x21 <= cp <= 0x7e and cp not in (0x22, 0x5c)
        for s in (chr(cp), 'a' + chr(cp), chr(cp) + 'z'):
            for scopes in (['openid', s], [s, 'openid']):
                o = outcome(msgs.build(KEY, dict(base, scopes_supported=scopes)).verify)
                rec.check((o[0] == 'ok' and bool(o[1])) == ok, 'scopes %r: %r', scopes, o[1])
    rec.nontrivial()


@st.composite
def char_sets(draw):
    # few texts, several sets: what one set admits says nothing about another
    sets = draw(st.lists(st.one_of(st.just(None), st.text('abc \xe5', max_size=3), st.lists(st.sampled_from('abc"')),
                                   st.text(max_size=6)), min_size=1, max_size=3))
    one = st.one_of(st.text('abc', max_size=4), st.text('abc \xe5"', max_size=4), st.text(max_size=4))
    texts = draw(st.lists(one, min_size=1, max_size=3))
    return sets, texts, draw(st.lists(st.tuples(st.integers(0, 2), st.integers(0, 2)), min_size=1, max_size=6))


def char_set(c, rec):
    from oidcmsg.oidc import SCOPE_CHARSET, check_char_set
    sets, texts, calls = c
    seen = set()
    for i, j in calls:
        allowed, txt = sets[i % len(sets)], texts[j % len(texts)]
        if allowed is None:
            allowed, ok = SCOPE_CHARSET, all(0x21 <= ord(ch) <= 0x7e and ch not in '"\\' for ch in txt)
        else:
            ok = set(txt) <= set(allowed)
        o = outcome(check_char_set, txt, allowed)
        rec.check((o[0] == 'ok') == ok, 'check_char_set(%r, %r): %r', txt, allowed, o[1])
        seen.add(ok)
        rec.cls('characters admitted' if ok else 'characters refused')
    if len(seen) == 2:
        rec.nontrivial()


TARGETS = [Target('character sets', char_sets(), char_set, quick=600, thorough=20000),
           Target('metadata', case(), check, quick=3500, thorough=120000),
           Target('scope characters', None, characters, examples=[(i * 32, i * 32 + 32) for i in range(24)] + [
               (0x2000, 0x2040), (0xff00, 0xff60), (0x1f600, 0x1f602)])]
