"""Anything at all is parsed: what was taken in survives being passed on (parse, serialize, parse), or it was refused."""
import copy
import json
import urllib.parse

from hypothesis import strategies as st

import gen
import msgs
from checks import M03
from spec import SPECS
from vf import Target, outcome

RULE = 'a case is non-trivial if the input was taken in and holds at least one value'
ASSUMPTIONS = []


@st.composite
def case(draw):
    key = draw(st.sampled_from(msgs.KEYS))
    spec = SPECS[key]
    p = {}
    if draw(st.booleans()):
        p = draw(msgs.params_for(key, with_required=False))
    names = st.one_of(st.sampled_from(sorted(spec.params)) if spec.params else gen.ident, gen.ident, gen.text)
    for n in draw(st.lists(names, max_size=3)):
        if draw(st.integers(0, 4)) == 0:
            n += '#' + draw(st.sampled_from(['sv', '', 'a#b']))
        p[n] = draw(msgs.ts_text if spec.params.get(n.split('#')[0]) == 't' else M03.value)
    return key, p


def settled(key, held):
    """Items of a space separated list with a space in them are several once it was sent."""
    codes = SPECS[key].params
    return {k: ' '.join(v).split(' ') if codes.get(k, codes.get(k.split('#')[0])) == 'S' and isinstance(v, list) and all(isinstance(x, str) for x in v)
            else v for k, v in held.items()}


def passed_on(c, rec):
    key, p = c
    cls = msgs.cls_of(key)
    o = outcome(cls(set_defaults=False).from_json, json.dumps(p))
    if o[0] == 'exc':
        rec.cls('refused')
        return
    m = o[1]
    held = msgs.plain(m)
    then = settled(key, held)
    d = m.to_dict()
    txt = m.to_json()
    rec.check(msgs.same(json.loads(txt), d), 'JSON %s, dictionary %r', txt, d)
    for name, m2 in (('JSON', cls(set_defaults=False).from_json(txt)), ('dict', cls(set_defaults=False).from_dict(copy.deepcopy(d)))):
        rec.check(msgs.same(msgs.plain(m2), then), '%s %r taken in as %r, passed on by %s as %r, taken in as %r', key, p, held, name, d, msgs.plain(m2))
        rec.check(m2 == m or then != held, 'not equal')
    rec.check(m.copy() == m and msgs.same(msgs.plain(m.copy()), held), 'copy')
    rec.check(str(m) == str(d), 'as text: %s, dictionary %r', m, d)
    lax(m)
    s = m.to_urlencoded()
    names = [k for k, _ in urllib.parse.parse_qsl(s, keep_blank_values=True)]
    rec.check(set(names) <= set(held), '%r has names that are not there: %r', s, held)
    payload = d if key == 'oidc:IdToken' else valid_payload(m.to_jwt(algorithm='none'))
    rec.check(msgs.same(payload, d), 'in a JWT %r, dictionary %r', payload, d)
    rec.check(msgs.same(msgs.plain(m), held), 'changed by passing it on: %r, %r', held, m)
    rec.cls('taken in')
    if held:
        rec.nontrivial()


def lax(v):
    """Required parameters may be missing, at any depth."""
    if isinstance(v, (list, dict)):
        for x in v.values() if isinstance(v, dict) else v:
            lax(x)
    elif hasattr(v, 'c_param'):
        v.lax = True
        for x in v.values():
            lax(x)


def valid_payload(token):
    import base64
    part = token.split('.')[1]
    return json.loads(base64.urlsafe_b64decode(part + '=' * (-len(part) % 4)))


pair = st.tuples(st.one_of(gen.ident, gen.text), gen.text0)


@st.composite
def form_case(draw):
    key = draw(st.sampled_from(msgs.PROTO))
    spec = SPECS[key]
    if draw(st.integers(0, 3)) == 0:
        return key, draw(st.one_of(gen.text0, st.text(alphabet='ab=&;%+#20[] \n{}"', max_size=30)))
    parts = []
    for _ in range(draw(st.integers(0, 4))):
        n = draw(st.one_of(st.sampled_from(sorted(spec.params)) if spec.params else gen.ident, gen.ident))
        v = draw(st.one_of(gen.text0, M03.value.map(json.dumps), gen.token, st.text(alphabet='ab=&;%+# {}"[],:', max_size=10)))
        if draw(st.booleans()):
            v = urllib.parse.quote_plus(v, errors='replace')
        parts.append(n + '=' + v)
    return key, draw(st.sampled_from(['', '', '', '', ' ', '&', '\n'])) + '&'.join(parts) + draw(st.sampled_from(['', '', '', ' ', '&', '\t']))


def form(c, rec):
    key, txt = c
    cls = msgs.cls_of(key)
    o = outcome(cls(set_defaults=False).from_urlencoded, txt)
    if o[0] == 'exc':
        rec.cls('refused')
        return
    m = o[1]
    lax(m)
    held = msgs.plain(m)
    # texts and unknown parameters are what a standard parser reads
    read = urllib.parse.parse_qs(txt)
    rec.eq(sorted(held), sorted(read), '%s names in %r', key, txt)
    for n, v in read.items():
        code = SPECS[key].params.get(n) or SPECS[key].params.get(n.split('#')[0])
        if code in (None, 's', 'i'):
            rec.check(held[n] == (v[0] if len(v) == 1 else v), '%s %r read from %r as %r', key, n, txt, held[n])
    s = m.to_urlencoded()
    m2 = cls(set_defaults=False)
    if held:
        m2.from_urlencoded(s)
    rec.check(msgs.same(msgs.plain(m2), held), '%s %r taken in as %r, passed on as %r, taken in as %r', key, txt, held, s, msgs.plain(m2))
    rec.cls('taken in')
    if held:
        rec.nontrivial()


@st.composite
def text_case(draw):
    key, p = draw(case())
    how = draw(st.sampled_from(['mutated', 'mutated', 'not an object', 'any', 'spaced', 'escaped', 'twice', 'deep']))
    txt = json.dumps(p, ensure_ascii=how == 'escaped')
    if how == 'mutated':
        for _ in range(draw(st.integers(1, 3))):
            i, j = sorted(draw(st.tuples(st.integers(0, len(txt)), st.integers(0, len(txt)))))
            txt = draw(st.sampled_from([txt[:i] + txt[i + 1:], txt[:i] + draw(st.sampled_from(list('{}[]",:\\0 ae\x00\n\ufeff\'') + ['null', 'NaN'])) + txt[i:],
                                        txt[:i], txt[:i] + txt[j:], txt + txt[i:]]))
    elif how == 'not an object':
        txt = json.dumps(draw(st.one_of(st.sampled_from([[], [p], None, 1, 'x', True, [[]], [['a', 'b']], txt, 0.5]), gen.json_value.filter(lambda v: not isinstance(v, dict)))))
    elif how == 'any':
        txt = draw(gen.text0)
    elif how == 'spaced':
        txt = draw(st.sampled_from([' ', '\n\t', '\ufeff', '\x00', '\xa0'])) + json.dumps(p, indent=draw(st.integers(0, 3))) + draw(st.sampled_from(['', ' ', '\n', ',', '}']))
    elif how == 'twice' and p:
        k = draw(st.sampled_from(sorted(p)))
        txt = json.dumps(p)[:-1] + ', %s: %s}' % (json.dumps(k), json.dumps(draw(M03.value)))
    elif how == 'deep':
        n = draw(st.sampled_from([10, 300, 20000]))
        txt = '{"x": ' + '[' * n + ']' * n + '}'
    return key, txt, '\ufeff' not in txt and draw(st.booleans())


def text(c, rec):
    """Exactly what the standard parser reads, and nothing of what it does not read."""
    key, txt, as_bytes = c
    cls = msgs.cls_of(key)
    try:
        want = json.loads(txt)
    except (ValueError, RecursionError):
        want = None
    m = cls(set_defaults=False)
    o = outcome(m.from_json, txt.encode('utf-8', 'surrogatepass') if as_bytes else txt)
    if not isinstance(want, dict):
        rec.check(o[0] == 'exc', '%r taken in as %r', txt[:200], o[1])
        rec.eq(msgs.plain(m), {}, 'what is left of %r', txt[:200])
        rec.cls('no object')
    else:
        x = outcome(cls(set_defaults=False).from_dict, copy.deepcopy(want))
        rec.check(o[0] == x[0], '%r as JSON: %r, as dictionary: %r', txt[:200], o[1], x[1])
        if o[0] == 'ok':
            rec.check(msgs.same(msgs.plain(o[1]), msgs.plain(x[1])), '%r taken in as %r, its content as %r', txt[:200], msgs.plain(o[1]), msgs.plain(x[1]))
        rec.cls('object ' + o[0])
    rec.nontrivial()


TARGETS = [Target('text', text_case(), text, quick=2000, thorough=60000),
           Target('JSON', case(), passed_on, quick=2000, thorough=60000), Target('form', form_case(), form, quick=2000, thorough=60000)]
