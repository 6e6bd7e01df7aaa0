"""Claims requests through every transport compared with what was put in, and claims matching against a reference predicate
with JSON equality."""
import copy
import json
from urllib.parse import urlencode

from hypothesis import strategies as st

import gen
import msgs
import tok
import valid
import vf
from vf import Target, outcome

RULE = ('a case is non-trivial if the request names a claim (transport) or the specification has a value or values (matching); '
        'distinct by content and transport')
ASSUMPTIONS = ['values that are equal in Python but not in JSON (1, 1.0, true) are not decided against each other',
               'values is an array']
NAMES = ['name', 'email', 'sub', 'auth_time', 'acr', 'picture', 'name#sv', 'http://example.info/claims/groups', 'userinfo',
         'id_token', 'request', 'claims', 'email_verified', 'birthdate', 'essential', 'value', 'åäö', 'a b', 'a&b=c', '']
value = st.one_of(gen.json_value, gen.scalar, st.sampled_from(['', 0, False, None, [], {}, 'urn:mace:incommon:iap:silver', [''], ' ']))
spec = st.one_of(st.none(), st.fixed_dictionaries({}, optional={
    'essential': st.one_of(st.booleans(), st.none()), 'value': value, 'values': st.lists(value, max_size=3),
    'purpose': gen.text, 'x': value}))
member = st.dictionaries(st.one_of(st.sampled_from(NAMES[:-1]), gen.ident), spec, max_size=4)
request = st.one_of(st.fixed_dictionaries({}, optional={'userinfo': member, 'id_token': member}),
                    st.fixed_dictionaries({'userinfo': member.filter(bool), 'id_token': member.filter(bool)}),
                    st.fixed_dictionaries({'userinfo': member.filter(bool)}, optional={'other': st.dictionaries(
                        gen.simple, spec, min_size=1, max_size=2)})).filter(lambda d: any(d.values()))
HOWS = ['form', 'form text', 'json', 'json text', 'dict', 'kwargs', 'object', 'jwt', 'request object', 'form twice', 'json twice']


@st.composite
def transported(draw):
    r = draw(request)
    r = {k: v for k, v in r.items() if v}
    req = {'scope': ['openid'], 'response_type': ['code'], 'client_id': valid.CLIENT, 'redirect_uri': 'https://rp/cb',
           'state': draw(gen.simple)}
    i = draw(st.integers(0, len(req)))
    return r, req, i, draw(st.sampled_from(['oidc:AuthorizationRequest', 'oidc:OpenIDRequest'])), draw(st.sampled_from(HOWS))


def with_claims(req, i, val):
    items = list(req.items())
    return dict(items[:i] + [('claims', val)] + items[i:])


def transport(c, rec):
    r, req, i, key, how = c
    cls = msgs.cls_of(key)
    given = copy.deepcopy(r)
    p = with_claims(req, i, copy.deepcopy(r))
    strs = {k: ' '.join(v) if isinstance(v, list) else v for k, v in req.items()}
    if how in ('form', 'form twice'):
        m = cls().from_urlencoded(cls(**p).to_urlencoded())
        if how == 'form twice':
            m = cls().from_urlencoded(m.to_urlencoded())
    elif how == 'form text':       # by an independent encoder
        m = cls().from_urlencoded(urlencode(with_claims(strs, i, json.dumps(r, ensure_ascii=i % 2 == 0))))
    elif how in ('json', 'json twice'):
        m = cls().from_json(cls(**p).to_json())
        if how == 'json twice':
            m = cls().from_json(m.to_json())
    elif how == 'json text':
        m = cls().from_json(json.dumps(with_claims(strs, i, r)))
    elif how == 'dict':
        m = cls().from_dict(cls(**p).to_dict())
    elif how == 'kwargs':
        m = cls(**p)
    elif how == 'object':
        m = cls(**dict(p, claims=msgs.cls_of('oidc:ClaimsRequest')(**copy.deepcopy(r))))
        m = cls().from_json(m.to_json()) if i % 2 else cls().from_urlencoded(m.to_urlencoded())
    elif how == 'jwt':
        t = cls(**p).to_jwt(key=[tok.key('oct1')], algorithm='HS256')
        rec.check(msgs.same(tok.payload(t)['claims'], given), 'signed claims %r, given %r', tok.payload(t)['claims'], given)
        m = cls().from_jwt(t, keyjar=tok.jar({'': ['oct1']}))
    else:
        inner = tok.sign(dict(strs, claims=r), None, 'none')
        m = cls(request=inner, **strs)
        vf.clock.set(valid.NOW)
        try:
            o = outcome(m.verify, keyjar=tok.jar({}))
        finally:
            vf.clock.real()
        rec.check(o == ('ok', True), 'refused: %r', o[1])
    got = m['claims']
    rec.check(msgs.same(msgs.plain(got), given), 'claims request came out as %r, went in as %r', msgs.plain(got), given)
    for part in ('userinfo', 'id_token'):
        if part in given:
            rec.check(msgs.same(msgs.plain(got[part]), given[part]), '%s part %r', part, got[part])
            for k, v in given[part].items():
                rec.check(k in got[part] and msgs.same(msgs.plain(got[part][k]), v), 'claim %r: %r', k, v)
                rec.cls('null entry' if v is None else 'entry')
    rec.check(msgs.same(p['claims'], given), 'the given claims were changed to %r', p['claims'])
    rec.cls(how)
    rec.nontrivial()


def strict(a, b):
    """JSON equality; None where it differs from Python equality."""
    return msgs.same(a, b) if (a == b) == msgs.same(a, b) else None


def matches(v, s):
    if s is None or not ('value' in s or 'values' in s):
        return True
    r = []
    if 'value' in s:
        r.append(strict(v, s['value']))
    for x in s.get('values', ()):
        r.append(strict(v, x))
    return True if True in r else None if None in r else False


@st.composite
def matching(draw):
    v = draw(st.one_of(value, st.sampled_from(['val', 'va', ['val'], ['val', 'other'], 'value', 'essential', 1, 'True'])))
    near = [v, [v], str(v), None]
    if isinstance(v, str):
        near += [v + 'x', v[:-1], v.upper(), v.swapcase(), v + ' ', [v + 'x'], {'value': v}]
    if isinstance(v, list):
        near += v + [v + v, v[:-1], v[::-1], [v]]
    if isinstance(v, int) and not isinstance(v, bool):
        near += [v + 1, -v]
    near += [x for x in v] if isinstance(v, dict) else []
    other = st.one_of(st.sampled_from(near), value)
    s = {}
    for k in draw(st.permutations(['value', 'values', 'essential', 'x'])):
        if draw(st.booleans()):
            if k == 'values':
                vs = draw(st.lists(other, max_size=4))
                if draw(st.integers(0, 2)) == 0:
                    vs.insert(draw(st.integers(0, len(vs))), v)
                s[k] = vs
            elif k == 'value':
                s[k] = draw(other)
            elif k == 'x':
                s[draw(st.sampled_from(['purpose', 'x', 'Value', 'max_age', '']))] = draw(other)
            else:
                s[k] = draw(st.sampled_from([True, False, None]))
    return v, draw(st.sampled_from([s, s, s, s, s, None]))


def match(c, rec):
    from oidcmsg.oidc import claims_match
    v, s = c
    want = matches(v, s)
    given = copy.deepcopy((v, s))
    got = claims_match(v, s)
    rec.check(msgs.same(list((v, s)), list(given)), 'arguments changed')
    if want is None:
        rec.cls('undecided')
        return
    rec.check(bool(got) == want, 'claims_match(%r, %r) is %r', v, s, got)
    if s and s != {'essential': s.get('essential')}:
        rec.nontrivial()
    rec.cls('%s with %s' % (want, 'null' if s is None else '+'.join(sorted(k for k in s if k in ('value', 'values', 'essential')))))


TARGETS = [Target('transport', transported(), transport, quick=2500, thorough=100000),
           Target('matching', matching(), match, quick=5000, thorough=200000)]
