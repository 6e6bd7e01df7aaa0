"""Form-urlencoded round trip, wire format against an independent encoder, refusals."""
import json
from urllib.parse import parse_qsl, quote, quote_plus

from hypothesis import strategies as st

import gen
import msgs
from spec import SPECS
from vf import Target, outcome

CODES = ('s', 'i', 'b', 'L', 'S', 'J', 'D', 'T', 'C')
KEYS = [k for k in msgs.PROTO if all(SPECS[k].params[p] in CODES for p in SPECS[k].required)]
RULE = ('a case is non-trivial if the message has at least one parameter; for refusals, if the refused input '
        'differs from an accepted one in one respect only')
ASSUMPTIONS = ['values are non-empty texts (blank values are not part of the form encoding of a message)',
               'items of lists contain no space, since lists are sent space separated']

lang = st.sampled_from(['sv', 'en', 'ja-Kana-JP', '', 'x#y'])


@st.composite
def case(draw):
    key = draw(st.sampled_from(KEYS))
    spec = SPECS[key]
    params = draw(msgs.params_for(key, codes=CODES, form=True))
    tagged = {}
    opts = [p for p in spec.params if spec.params[p] in ('s', 'L', 'S', 'i', 'J')]
    for p in draw(st.lists(st.sampled_from(opts), max_size=2, unique=True)) if opts else []:
        tagged['%s#%s' % (p, draw(lang))] = draw(msgs.value_for(spec.params[p], True))
    extra = draw(st.dictionaries(msgs.extra_keys(key).filter(lambda k: '#' not in k), st.one_of(
        gen.text, gen.integer, st.booleans(), st.lists(gen.text, min_size=2, max_size=3),
        st.tuples(gen.text, st.integers(2, 3)).map(lambda x: [x[0]] * x[1]),
        st.lists(st.one_of(gen.integer, st.booleans(), gen.text), min_size=2, max_size=3)), max_size=3))
    return key, params, tagged, extra


def wire_of(code, v):
    """The texts a value is sent as."""
    if isinstance(v, str):
        return [v]
    if isinstance(v, list):
        return [' '.join(v)] if code in ('L', 'S') else [str(x) for x in v]
    return [str(v)]


def parsed(code, v):
    if isinstance(v, (int, bool)):
        return str(v)
    if isinstance(v, list) and code is None:
        return [str(x) for x in v]
    return v


def code_of(spec, k):
    return spec.params.get(k) or spec.params.get(k.split('#')[0])


def roundtrip(c, rec):
    key, params, tagged, extra = c
    spec = SPECS[key]
    cls = msgs.cls_of(key)
    content = dict(params)
    content.update(tagged)
    content.update(extra)
    m = msgs.build(key, content)
    before = msgs.plain(m)
    wire = m.to_urlencoded()
    rec.check(isinstance(wire, str), 'wire form is not text: %r', wire)
    rec.check(all(ch.isascii() and (ch.isalnum() or ch in "-._~*+%&='!()") for ch in wire),
              'characters that need escaping in %r', wire)
    # what a standard form decoder sees
    got = parse_qsl(wire, keep_blank_values=True)
    want = []
    for k, v in content.items():
        code = code_of(spec, k)
        if code in ('J', 'D', 'C'):
            mine = [x for kk, x in got if kk == k]
            rec.eq(len(mine), 1, 'object parameter %r must be sent once', k)
            rec.check(msgs.same(json.loads(mine[0]), v), 'object parameter %r sent as %r, holds %r', k, mine[0], v)
        else:
            want += [(k, x) for x in wire_of(code, v)]
    rec.eq(sorted(p for p in got if code_of(spec, p[0]) not in ('J', 'D', 'C')), sorted(want), 'wire form of %s', key)
    for k in content:
        rec.eq([x for kk, x in got if kk == k and code_of(spec, k) not in ('J', 'D', 'C')],
               [x for kk, x in want if kk == k], 'order of the values of %r', k)
    rec.check(msgs.same(msgs.plain(m), before), 'serializing changed the message')
    rec.eq(m.serialize('urlencoded'), wire, 'serialize()')

    expected = {k: parsed(code_of(spec, k), v) for k, v in content.items()}
    # the reader copes with any correct encoding of the same pairs
    pct = '&'.join('%s=%s' % (quote(k, safe=''), quote(v, safe='')) for k, v in got)
    plus = '&'.join('%s=%s' % (quote_plus(k), quote_plus(v)) for k, v in got)
    for how, txt in (('own', wire), ('percent', pct), ('plus', plus)):
        for m2 in (cls(set_defaults=False).from_urlencoded(txt), cls(set_defaults=False).deserialize(txt, 'urlencoded')):
            rec.check(type(m2) is cls, 'class of the parsed message')
            rec.check(msgs.same(msgs.plain(m2), expected), '%s parsed from %s encoding: %r, expected %r', key, how,
                      msgs.plain(m2), expected)
    rec.cls('%d parameters' % min(len(content), 8))
    for k, v in content.items():
        rec.cls('type ' + (code_of(spec, k) or 'unknown'))
    if content:
        rec.nontrivial()


@st.composite
def plenty(draw):
    key = draw(st.sampled_from(KEYS))
    lists = sorted(n for n, t in SPECS[key].params.items() if t in ('L', 'S'))
    return key, draw(st.sampled_from(['parameters', 'parameters', 'values', 'tags'] + (['items', 'items'] if lists else []))), \
        draw(gen.count), draw(st.sampled_from(lists)) if lists else None, draw(st.lists(gen.text, min_size=1, max_size=3)), \
        draw(st.lists(gen.token, min_size=1, max_size=3))


def many(c, rec):
    """Long messages: many parameters, many values of one, many items in a list."""
    key, what, n, name, texts, tokens = c
    spec = SPECS[key]
    content = {k: msgs_min(spec.params[k]) for k in spec.required}
    if what == 'parameters':
        content.update({'vf_%d' % i: texts[i % len(texts)] for i in range(n)})
    elif what == 'tags':
        content.update({'vf_name#t%d' % i: texts[i % len(texts)] for i in range(n)})
    elif what == 'values':
        content['vf_many'] = [texts[i % len(texts)] + str(i) for i in range(n)]
    else:
        content[name] = [tokens[i % len(tokens)] + str(i) for i in range(n)]
    m = msgs.build(key, content)
    wire = m.to_urlencoded()
    want = [(k, x) for k, v in content.items() for x in wire_of(code_of(spec, k), v) if code_of(spec, k) not in ('J', 'D', 'C')]
    rec.eq([p for p in parse_qsl(wire, keep_blank_values=True) if code_of(spec, p[0]) not in ('J', 'D', 'C')], want, 'wire form')
    got = msgs.plain(msgs.cls_of(key)(set_defaults=False).from_urlencoded(wire))
    rec.check(msgs.same(got, {k: parsed(code_of(spec, k), v) for k, v in content.items()}), '%s with %d %s: %.300r', key, n, what, got)
    rec.cls('many ' + what)
    rec.nontrivial()


def msgs_min(code):
    return {'i': 1, 'b': True, 'L': ['x'], 'S': ['x'], 'J': {'a': 1}, 'D': [{'a': 1}], 'C': {}}.get(code, 'x')


@st.composite
def with_nulls(draw):
    key, params, tagged, extra = draw(case())
    spec = SPECS[key]
    names = [n for n in spec.params if n not in params and n not in spec.required and n not in spec.null_ok] + ['x_none', 'zz', 'foo#sv']
    return key, params, draw(st.lists(st.sampled_from(names), min_size=1, max_size=4, unique=True)), draw(st.booleans())


def nulls(c, rec):
    """A parameter that is there without a value is not sent."""
    key, params, names, late = c
    m = msgs.build(key, params)
    want = m.to_urlencoded()
    if not late:
        m = msgs.cls_of(key)(set_defaults=False)
    for n in names:
        outcome(m.__setitem__, n, None)     # what is not taken is not there, which is as good
    if not late:
        for n, v in params.items():
            m[n] = v
    got = m.to_urlencoded()
    rec.eq(sorted(parse_qsl(got, keep_blank_values=True)), sorted(parse_qsl(want, keep_blank_values=True)), 'wire form of %s with nulls', key)
    if any(n in m and m[n] is None for n in names):
        rec.nontrivial()


@st.composite
def missing(draw):
    key = draw(st.sampled_from([k for k in KEYS if SPECS[k].required]))
    params = draw(msgs.params_for(key, codes=CODES, form=True))
    gone = draw(st.sampled_from(sorted(SPECS[key].required)))
    return key, params, gone


def lacking(c, rec):
    key, params, gone = c
    params = {k: v for k, v in params.items() if k != gone}
    m = msgs.build(key, params)
    from oidcmsg.exception import MissingRequiredAttribute
    k, v = outcome(m.to_urlencoded)
    rec.check(k == 'exc' and isinstance(v, MissingRequiredAttribute), '%s without %s serialized: %r', key, gone, v)
    k, v = outcome(m.serialize, 'urlencoded')
    rec.check(k == 'exc', '%s without %s serialized: %r', key, gone, v)
    m.lax = True
    got = dict(parse_qsl(m.to_urlencoded(), keep_blank_values=True))
    rec.eq(set(got), set(params), 'lax serialization of %s', key)
    rec.nontrivial()


@st.composite
def repeated(draw):
    key = draw(st.sampled_from(KEYS))
    spec = SPECS[key]
    single = [p for p in spec.params if spec.params[p] in ('s', 'i', 'b', 'J', 'D', 'C')]
    if not single:
        key, single = 'oauth2:AccessTokenRequest', ['code']
    p = draw(st.sampled_from(single))
    tag = draw(st.sampled_from(['', '', '', '#sv']))
    if SPECS[key].params[p] in ('J', 'D', 'C'):
        vals = ['{"a": "b"}', '{"c": "d"}']
    else:
        vals = draw(st.lists(gen.text, min_size=2, max_size=3))
    same = draw(st.booleans())
    if same:
        vals = [vals[0]] * len(vals)
    return key, p + tag, vals


def repeat(c, rec):
    key, p, vals = c
    cls = msgs.cls_of(key)
    txt = '&'.join('%s=%s' % (quote_plus(p), quote_plus(v)) for v in vals)
    k, v = outcome(cls(set_defaults=False).from_urlencoded, txt)
    rec.check(k == 'exc', '%s accepted %r', key, txt)
    rec.nontrivial()
    one = outcome(cls(set_defaults=False).from_urlencoded, '%s=%s' % (quote_plus(p), quote_plus(vals[0])))
    rec.check(one[0] == 'ok', '%s refused a single %s: %r', key, p, one[1])


junk = st.one_of(
    gen.text.filter(lambda s: '=' not in s),
    st.lists(gen.simple, min_size=1, max_size=3).map('&'.join),
    st.lists(gen.simple, min_size=1, max_size=3).map(lambda xs: '&'.join(x + '=' for x in xs)),
    st.sampled_from(['&', '&&', 'a', '{}', '{"a": 1}', 'code', ' ', '%', '%3D', '?']))


def nothing(c, rec):
    key, txt = c
    cls = msgs.cls_of(key)
    k, v = outcome(cls(set_defaults=False).from_urlencoded, txt)
    rec.check(k == 'exc', '%s read something from %r: %r', key, txt, v)
    k, v = outcome(cls(set_defaults=False).from_urlencoded, '')
    rec.check(k == 'ok' and len(v) == 0, 'empty input gave %r', v)
    rec.nontrivial()


TARGETS = [
    Target('roundtrip', case(), roundtrip, quick=2400, thorough=80000),
    Target('many', plenty(), many, quick=200, thorough=8000),
    Target('nulls', with_nulls(), nulls, quick=500, thorough=15000),
    Target('required', missing(), lacking, quick=400, thorough=8000),
    Target('repeated', repeated(), repeat, quick=400, thorough=8000),
    Target('no parameters', st.tuples(st.sampled_from(KEYS), junk), nothing, quick=300, thorough=6000),
]
