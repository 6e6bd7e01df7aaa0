"""The same content brought into a message by every way there is, then verified, twice: metamorphic comparison of the outcomes."""
import copy
import json

from hypothesis import strategies as st

import msgs
import valid
import vf
from spec import SPECS
from vf import Target, outcome

RULE = 'a case is non-trivial if the message has at least two parameters'
ASSUMPTIONS = ['values are of the declared types and not blank (what wrong ones become is M03 and M05)']
JAR = 'oauth2:JWTSecuredAuthorizationRequest'
KW = [{}, {'keyjar': None}, {'sigalg': 'none', 'keyjar': None}, {'iss': valid.ISS, 'client_id': valid.CLIENT, 'keyjar': None},
      {'skew': 10, 'keyjar': None}, {'aud': valid.CLIENT, 'keyjar': None}, {'nonce': 'n', 'keyjar': None}, {'allow_sign_alg_none': True, 'keyjar': None}]
EXPECTED = ('iss', 'client_id', 'nonce', 'aud', 'sub', 'state')
# classes with parameters a caller's expectations are compared with
COMPARED = [k for k in msgs.PROTO if set(EXPECTED) & set(SPECS[k].params)]


def blank(v):
    return v is None or v in ('', [''], [], {})


@st.composite
def case(draw):
    key = draw(st.one_of(st.sampled_from(msgs.KEYS), st.sampled_from(COMPARED)))
    spec = SPECS[key]
    p, kw = draw(valid.valid(key))
    changes = draw(st.lists(st.sampled_from(['drop', 'drop', 'retype', 'add', 'add', 'other', 'tagged']), max_size=4))
    for ch in changes:
        if ch == 'drop' and p:
            p.pop(draw(st.sampled_from(sorted(p))))
        elif ch == 'retype' and p:
            n = draw(st.sampled_from(sorted(p)))
            if n in spec.params:
                p[n] = draw(msgs.value_for(spec.params[n]))
        elif ch == 'add' and spec.params:
            n = draw(st.sampled_from(sorted(spec.params)))
            p[n] = draw(msgs.value_for(spec.params[n]))
        elif ch == 'other':
            k2 = draw(st.sampled_from(msgs.PROTO))
            for n, v in draw(valid.valid(k2))[0].items():
                if SPECS[k2].params[n] == spec.params.get(n):
                    p[n] = v
        elif ch == 'tagged' and spec.params:
            n = draw(st.sampled_from(sorted(spec.params)))
            if spec.params[n] in ('s', 'L', 'S', 'i', 'b'):
                p[n + '#' + draw(st.sampled_from(['sv', 'en']))] = draw(msgs.value_for(spec.params[n]))
    if draw(st.booleans()):
        p.update(draw(valid.extras(key)))
    if draw(st.integers(0, 3)) == 0:
        kw = draw(st.sampled_from(KW))
    p = {k: v for k, v in p.items() if not blank(v)}
    if draw(st.integers(0, 2)):     # what the caller expects is there
        for n in EXPECTED:
            if n in spec.params and n not in p and spec.params[n] == 's' and draw(st.booleans()):
                p[n] = draw(st.sampled_from(['https://op.example.org', 'client1', 'x']))
            if isinstance(p.get(n), str) and n not in kw and draw(st.integers(0, 3)):
                kw = dict(kw, **{n: p[n]})
    return key, p, kw, draw(st.permutations(sorted(p)))


def b64(x):
    return valid.b64(x)


def ways(key, p, order):
    from oidcmsg.message import Message
    cls = msgs.cls_of(key)

    def fresh():
        return cls(set_defaults=False)

    def items():
        m = fresh()
        for k in order:
            m[k] = copy.deepcopy(p[k])
        return m

    def update():
        m = fresh()
        m.update(copy.deepcopy(p))
        return m

    def form(ks):
        m = fresh().from_dict({k: copy.deepcopy(p[k]) for k in ks})
        m.lax = True
        return m.to_urlencoded()

    def late():
        m = fresh()
        m.from_dict({k: copy.deepcopy(p[k]) for k in order[1:]})
        for k in order[:1]:
            m[k] = copy.deepcopy(p[k])
        return m
    yield 'dict', lambda: fresh().from_dict(copy.deepcopy(p))
    yield 'constructor', lambda: cls(set_defaults=False, **copy.deepcopy(p))
    yield 'JSON', lambda: fresh().from_json(json.dumps({k: p[k] for k in order}))
    yield 'deserialize', lambda: fresh().deserialize(json.dumps(p, indent=1), 'json')
    yield 'items', items
    yield 'update', update
    yield 'late item', late
    yield 'JWT', lambda: fresh().from_jwt(valid.unsigned(p), None, verify=False)
    yield 'copy', lambda: fresh().from_dict(copy.deepcopy(p)).copy()
    yield 'deep copy', lambda: copy.deepcopy(fresh().from_dict(copy.deepcopy(p)))
    yield 'dict of another', lambda: fresh().from_dict(fresh().from_dict(copy.deepcopy(p)).to_dict())
    yield 'JSON of another', lambda: fresh().from_json(fresh().from_dict(copy.deepcopy(p)).to_json(indent=2))
    yield 'constructor from items', lambda: cls(set_defaults=False, **dict(fresh().from_dict(copy.deepcopy(p)).items()))
    yield 'constructor from a message', lambda: cls(set_defaults=False, **Message(**copy.deepcopy(p)))
    codes = {SPECS[key].params.get(k) for k in p}
    if codes <= {'s', 'S', 'L'} and not any(' ' in x for v in p.values() if isinstance(v, list) for x in v):
        yield 'form', lambda: fresh().from_urlencoded(form(list(p)))
        yield 'deserialized form', lambda: fresh().deserialize(form(order), 'urlencoded')
    yield 'another message', lambda: fresh().from_dict(Message(**copy.deepcopy(p)).to_dict())


def content(m):
    return {k: v for k, v in msgs.plain(m).items() if not k.startswith('__verified')}


def verdict(m, kw):
    vf.clock.set(valid.NOW)
    try:
        o = outcome(m.verify, **valid.kwargs_of(kw))
    finally:
        vf.clock.real()
    return ('refused', type(o[1]).__name__) if o[0] == 'exc' else ('accepted' if o[1] else 'refused', '')


def run(c, rec):
    key, p, kw, order = c
    first = None
    for name, make in ways(key, p, order):
        if name.startswith('constructor') and ('self' in p or 'set_defaults' in p):
            continue
        o = outcome(make)
        if o[0] == 'exc':
            now = ('not built', type(o[1]).__name__), None
        else:
            m = o[1]
            held = content(m)
            v = verdict(m, kw)
            now = v, held
            if key != JAR:
                then = content(m)
                rec.check(msgs.same({k: x for k, x in then.items() if k in held}, held), '%s from %s: verify() (%s) changed %r to %r', key, name, v[0],
                          held, then)
                now = v, held, then
                again = verdict(m, kw)
                rec.check(again == v, '%s from %s: %s, then %s', key, name, v, again)
        if first is None:
            first = now
            rec.cls(now[0][0])
        rec.check(now[0] == first[0], '%s %r from %s: %s, from a dictionary: %s', key, p, name, now[0], first[0])
        for a, b in zip(now[1:], first[1:]):
            rec.check(a is None or msgs.same(a, b), '%s from %s holds %r, from a dictionary %r', key, name, a, b)
    if any(w[0] == 'form' for w in ways(key, p, order)):
        rec.cls('by form too')
    if len(p) > 1:
        rec.nontrivial()


TARGETS = [Target('ways', case(), run, quick=3000, thorough=60000)]
