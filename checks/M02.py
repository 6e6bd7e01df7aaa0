"""JSON and dictionary round trip, against the standard JSON parser and the values put in."""
import copy
import json

from hypothesis import strategies as st

import gen
import msgs
from spec import SPECS
from vf import Target

RULE = 'a case is non-trivial if the message has at least one parameter; distinct by content'
ASSUMPTIONS = ['values of identity assurance time stamps are ISO 8601 (or other non-numeric) text here; numbers are I01']

lang = st.sampled_from(['sv', 'en', 'ja-Kana-JP', '', 'a#b'])
extra_value = gen.json_value.filter(lambda v: v not in ('', ['']))


@st.composite
def case(draw):
    key = draw(st.sampled_from(msgs.KEYS))
    spec = SPECS[key]
    params = draw(msgs.params_for(key))
    opts = [p for p in spec.params if spec.params[p] in ('s', 'L', 'S', 'i', 'b')]
    for p in draw(st.lists(st.sampled_from(opts), max_size=1)) if opts else []:
        params['%s#%s' % (p, draw(lang))] = draw(msgs.value_for(spec.params[p]))
    if key not in ('oidc:Claims', 'oidc:ClaimsRequest', 'oidc.identity_assurance:IDAClaimsRequest'):
        params.update(draw(st.dictionaries(msgs.extra_keys(key), extra_value, max_size=3)))
    how = draw(st.sampled_from(['from_dict', 'kwargs', 'json', 'nested message']))
    return key, params, how, draw(st.sampled_from([None, None, 0, 1, 2, 4]))


def as_message(v):
    """A message instead of an object, where one can hold it."""
    from oidcmsg.message import Message
    if not isinstance(v, dict):
        return v
    m = Message()
    for k, x in v.items():
        m[k] = x
    return m if msgs.same(dict(m.items()), v) else v


def build(key, params, how):
    cls = msgs.cls_of(key)
    if how == 'kwargs':
        return cls(set_defaults=False, **params)
    if how == 'json':
        return cls(set_defaults=False).from_json(json.dumps(params))
    p = dict(params)
    if how == 'nested message':
        from oidcmsg.message import Message
        from oidcmsg.oidc import AddressClaim, Claims, ClaimsRequest, Link
        for k, v in params.items():
            c = SPECS[key].params.get(k)
            if c == 'A':
                p[k] = AddressClaim(**v)
            elif c == 'M':
                p[k] = Message(**v)
            elif c == 'C':
                p[k] = ClaimsRequest(**v)
            elif c == 'Q':
                p[k] = Claims(**v)
            elif c == 'K':
                p[k] = [Link(**x) for x in v]
            elif c == 'E':
                p[k] = [msgs.cls_of('oidc.identity_assurance:IdDocument')(**x) for x in v]
            elif c and c.startswith('X:'):
                p[k] = msgs.cls_of('oidc.identity_assurance:' + c[2:])(**v)
            elif c is None and '#' not in k:
                p[k] = [as_message(x) for x in v] if isinstance(v, list) else as_message(v)
    return cls(set_defaults=False).from_dict(p)


def is_plain(v):
    if isinstance(v, dict):
        return type(v) is dict and all(isinstance(k, str) and is_plain(x) for k, x in v.items())
    if isinstance(v, list):
        return type(v) is list and all(is_plain(x) for x in v)
    return v is None or type(v) in (str, int, bool, float)


def dict_form(code, v):
    """What the dictionary form of a value may look like to somebody reading the JSON."""
    if code == 'S':
        return ' '.join(v)
    return v


def roundtrip(c, rec):
    key, params, how, indent = c
    cls = msgs.cls_of(key)
    spec = SPECS[key]
    m = build(key, copy.deepcopy(params), how)
    held = msgs.plain(m)
    rec.check(msgs.same(held, params), '%s built by %s holds %r, given %r', key, how, held, params)
    copy0 = copy.deepcopy(m)

    d = m.to_dict()
    rec.check(is_plain(d), 'dictionary form holds something else than plain data: %r', d)
    rec.eq(list(d), list(params), 'keys of the dictionary form')
    for k, v in d.items():
        code = spec.params.get(k) or spec.params.get(k.split('#')[0])
        want = dict_form(code, params[k])
        rec.check(msgs.same(v, want), 'dictionary form of %s.%s is %r, given %r', key, k, d[k], params[k])
    txt = m.to_json(indent=indent)
    rec.check(isinstance(txt, str), 'JSON form is not text')
    rec.check(msgs.same(json.loads(txt), d), 'JSON form %s differs from the dictionary form %r', txt, d)
    if indent:
        rec.check('\n' in txt or len(d) == 0, 'not indented')
    rec.check(msgs.same(json.loads(m.serialize('json')), d), 'serialize("json")')
    rec.check(msgs.same(m.serialize('dict'), d), 'serialize("dict")')
    rec.check(m == copy0 and msgs.same(msgs.plain(m), held), 'serializing changed the message')

    for name, m2 in (('to_json', cls(set_defaults=False).from_json(txt)),
                     ('to_dict', cls(set_defaults=False).from_dict(d)),
                     ('kwargs', cls(set_defaults=False, **d) if 'self' not in d and 'set_defaults' not in d else m),
                     ('deserialize json', cls(set_defaults=False).deserialize(txt, 'json')),
                     ('deserialize dict', cls(set_defaults=False).deserialize(m.serialize('dict'), 'dict'))):
        rec.check(type(m2) is cls, '%s: class', name)
        rec.check(msgs.same(msgs.plain(m2), params), '%s through %s: %r, given %r', key, name, msgs.plain(m2), params)
        if how != 'nested message':
            rec.check(m2 == m and not m2 != m, '%s through %s: not equal', key, name)
    # bytes are JSON text as well
    rec.check(msgs.same(msgs.plain(cls(set_defaults=False).from_json(txt.encode())), params), 'from JSON bytes')
    # and the dictionary given out is not tied to the message
    rec.cls('built by ' + how)
    for k in params:
        rec.cls('type %s' % (spec.params.get(k) or spec.params.get(k.split('#')[0]) or 'unknown'))
    if params:
        rec.nontrivial()


@st.composite
def plenty(draw):
    return draw(st.sampled_from(msgs.KEYS)), draw(st.sampled_from(['parameters', 'items', 'members', 'depth', 'long text'])), draw(gen.count), \
        draw(st.lists(gen.json_value.filter(lambda v: v not in ('', [''])), min_size=1, max_size=3))


def many(c, rec):
    """Long messages: many parameters, long lists and objects, deep nesting."""
    key, what, n, values = c
    cls = msgs.cls_of(key)
    if what == 'parameters':
        content = {'vf_%d' % i: values[i % len(values)] for i in range(n)}
    elif what == 'items':
        content = {'vf': [[values[i % len(values)], i] for i in range(n)]}
    elif what == 'members':
        content = {'vf': {'m%d' % i: values[i % len(values)] for i in range(n)}}
    elif what == 'long text':
        content = {'vf': 'é' * n * n + 'x'}
    else:
        v = values[0]
        for i in range(min(n, 150)):
            v = [v] if i % 3 == 0 else {'d': v}
        content = {'vf': v}
    m = cls(set_defaults=False, **copy.deepcopy(content))
    rec.check(msgs.same(msgs.plain(m), content), 'with %d %s holds something else', n, what)
    rec.check(msgs.same(m.to_dict(), content), 'dictionary form with %d %s', n, what)
    txt = m.to_json()
    rec.check(msgs.same(json.loads(txt), content), 'JSON form with %d %s', n, what)
    for m2 in (cls(set_defaults=False).from_json(txt), cls(set_defaults=False).from_dict(m.to_dict())):
        rec.check(msgs.same(msgs.plain(m2), content), 'read back with %d %s', n, what)
    rec.cls('many ' + what)
    rec.nontrivial()


TARGETS = [Target('many', plenty(), many, quick=200, thorough=8000),
           Target('roundtrip', case(), roundtrip, quick=4000, thorough=120000)]
