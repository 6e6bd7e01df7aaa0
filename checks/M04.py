"""verify(): required parameters and allowed values of every message class."""
import copy

from hypothesis import strategies as st

import gen
import msgs
import valid
import vf
from spec import SPECS
from vf import Target, outcome

RULE = ('a case is non-trivial if a message that verifies is changed in one respect (a required parameter removed or '
        'emptied, an enumerated value replaced) or has unknown parameters or more than the required ones')
ASSUMPTIONS = ['rules of particular messages are satisfied by construction here and decided by the other properties']
REQ_KEYS = [k for k in msgs.KEYS if SPECS[k].required]
ENUM = [(k, p) for k in msgs.KEYS for p in sorted(SPECS[k].allowed)]
# rebuilt by verify() itself, so a parameter of the outer message does not count
JAR = 'oauth2:JWTSecuredAuthorizationRequest'


def verify(m, kw):
    vf.clock.set(valid.NOW)
    try:
        return outcome(m.verify, **valid.kwargs_of(kw))
    finally:
        vf.clock.real()


def refused(o):
    return o[0] == 'exc' or not o[1]


@st.composite
def good(draw):
    key = draw(st.sampled_from(msgs.KEYS))
    p, kw = draw(valid.valid(key))
    return key, p, kw, draw(valid.extras(key))


def accepts(c, rec):
    key, p, kw, extra = c
    full = dict(p)
    full.update(extra)
    for how in ('dict', 'kwargs'):
        if how == 'dict':
            m = msgs.build(key, copy.deepcopy(full))
        else:
            m = msgs.cls_of(key)(set_defaults=False, **copy.deepcopy(full))
        before = msgs.plain(m)
        o = verify(m, kw)
        rec.check(o[0] == 'ok', '%s refused: %r', key, o[1])
        rec.check(o[1] is True, '%s verify() returned %r', key, o[1])
        after = {k: v for k, v in msgs.plain(m).items() if not k.startswith('__verified')}
        if key != JAR:
            rec.check(msgs.same(after, before), '%s changed by verify(): %r -> %r', key, before, after)
        o = verify(m, kw) if key != JAR else o
        rec.check(o == ('ok', True), '%s second verify(): %r', key, o[1])
    rec.cls('accepted ' + key.split(':')[0])
    if extra or len(p) > len(SPECS[key].required):
        rec.nontrivial()


EMPTY = {'s': '', 'L': [], 'S': [], 'J': {}, 'D': {}, 'T': '', 't': '', 'i': None, 'b': None}


@st.composite
def lacking(draw):
    key = draw(st.sampled_from(REQ_KEYS))
    p, kw = draw(valid.valid(key))
    req = sorted(SPECS[key].required)
    gone = draw(st.lists(st.sampled_from(req), min_size=1, max_size=len(req), unique=True))
    how = draw(st.sampled_from(['missing', 'missing', 'empty', 'none']))
    return key, p, kw, gone, how, draw(blanks(key, p))


@st.composite
def blanks(draw, key, p):
    """Optional parameters to be present without a value: they excuse nothing."""
    spec = SPECS[key]
    names = sorted(n for n, t in spec.params.items() if n not in p and n not in spec.required and EMPTY.get(t) is not None)
    if key == JAR or not names or draw(st.booleans()):
        return []
    return draw(st.lists(st.sampled_from(names), min_size=1, max_size=3, unique=True))


def lacks(c, rec):
    key, p, kw, gone, how, blank = c
    spec = SPECS[key]
    if key == JAR:
        inner = {k: v for k, v in p.items() if k != 'request' and k not in gone}
        m = msgs.build(key, {'request': valid.unsigned(inner)})
    else:
        m = msgs.build(key, {k: v for k, v in p.items() if k not in gone})
        for g in gone:
            code = spec.params[g]
            if how == 'missing' or code == 'b':
                continue            # a boolean is either there or not
            m.update({g: EMPTY.get(code) if how == 'empty' else None})
        m.update({n: EMPTY[spec.params[n]] for n in blank})
    o = verify(m, kw)
    rec.check(refused(o), '%s with %s %s (and %s empty) verified', key, gone, how, blank)
    rec.cls(how)
    rec.nontrivial()


@st.composite
def wrong(draw):
    key, param = draw(st.sampled_from(ENUM))
    p, kw = draw(valid.valid(key))
    allowed = SPECS[key].allowed[param]
    base = draw(st.sampled_from(allowed))
    others = sorted({v for s in SPECS.values() for vs in s.allowed.values() for v in vs} | set(gen.WORDS))
    bad = draw(st.one_of(st.sampled_from([base.upper(), base + 's', base[:-1], base + '/', 'x' + base, base.capitalize(),
                                          base.replace('_', '-'), base + '\t', base + '\n', base[1:]]),
                         st.sampled_from(others), gen.token).filter(lambda v: v not in allowed and v != '' and
                                                                    ' ' not in v))
    if SPECS[key].params[param] == 's':
        val = bad
    else:
        val = draw(st.lists(st.sampled_from([a for a in allowed if a != 'none']), max_size=3))
        if draw(st.integers(0, 3)) == 0:
            val = [a for a in allowed if a != 'none'][:1] * draw(gen.count)
        val.insert(draw(st.integers(0, len(val))), bad)
    return key, p, kw, param, val, [n for n in draw(blanks(key, p)) if n != param]


def disallowed(c, rec):
    key, p, kw, param, val, blank = c
    p = dict(p)
    p[param] = val
    m = msgs.build(key, p)
    m.update({n: EMPTY[SPECS[key].params[n]] for n in blank})
    o = verify(m, kw)
    rec.check(refused(o), '%s with %s=%r (and %s empty) verified', key, param, val, blank)
    rec.nontrivial()


@st.composite
def right(draw):
    key, param = draw(st.sampled_from(ENUM))
    p, kw = draw(valid.valid(key))
    allowed = SPECS[key].allowed[param]
    return key, p, kw, param, draw(st.sampled_from(allowed))


def allowed(c, rec):
    key, p, kw, param, v = c
    p = dict(p)
    p[param] = v if SPECS[key].params[param] == 's' else [v]
    o = verify(msgs.build(key, p), kw)
    rec.check(o == ('ok', True), '%s with %s=%r: %r', key, param, v, o[1])
    rec.nontrivial()


TARGETS = [Target('valid messages verify', good(), accepts, quick=2500, thorough=80000),
           Target('required parameters', lacking(), lacks, quick=2000, thorough=60000),
           Target('other values', wrong(), disallowed, quick=800, thorough=30000),
           Target('allowed values', right(), allowed, quick=800, thorough=20000)]
