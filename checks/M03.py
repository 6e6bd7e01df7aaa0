"""Values of declared types: every class and parameter crossed with values of every JSON type."""
import copy
import json
import re

from hypothesis import strategies as st

import gen
import msgs
from spec import SPECS
from vf import Target, outcome

RULE = ('a case is non-trivial if the value is not a well typed, non-blank value of the parameter, '
        'or is one that has to be converted (text for integers, lists and objects)')
ASSUMPTIONS = ['text that int() reads but that is no plain decimal number (blanks, underscores, other digits) may be '
               'accepted or refused', 'for nested message parameters only the type of what is stored is decided here; '
               'their content is M02, time stamps are I01']
PAIRS = [(k, p) for k in msgs.KEYS for p in sorted(SPECS[k].params)]
BY_CODE = {}
for k_, p_ in PAIRS:
    BY_CODE.setdefault(SPECS[k_].params[p_], []).append((k_, p_))
pair = st.one_of(st.sampled_from(PAIRS), st.sampled_from(sorted(BY_CODE)).flatmap(lambda c: st.sampled_from(BY_CODE[c])))
MSGCODES = ('A', 'M', 'C', 'Q', 'K', 'E')

value = st.one_of(
    gen.scalar, gen.json_value,
    gen.integer.map(str), gen.fl.map(str), st.sampled_from(['', '1', '0', '-7', '007', '1e3', '0x10', '3.0', ' 12 ', '1_0',
                                                            'True', 'true', 'null', '[]', '{}', '{"a": 1}', '[1]', '"x"',
                                                            '[{}]', '{', '12', '٣']),
    gen.json_object.map(json.dumps),
    st.lists(gen.text0, max_size=3),
    st.lists(st.one_of(gen.text, gen.scalar), min_size=1, max_size=4),
    st.sampled_from([[], [''], [None], [None, 'a'], ['a', None], ['', 'a'], ['a b'], ['a b', 'c'], [['a']], [1], [True],
                     [{}], [{'a': 'b'}], [0], {}, {'a': 'b'}, 0, 1, True, False, None, 1.5, -0.0, ['a', 1], ['a', ['b']]]))

UNSET, REFUSE = 'unset', 'refuse'


def model(code, v, null_ok):
    """The set of allowed outcomes, each ('set', value), UNSET or REFUSE; None: anything typed."""
    blank_list = isinstance(v, list) and (not v or v[0] is None) and not null_ok
    if blank_list:
        return [UNSET]
    if code in ('L', 'S'):
        if isinstance(v, str):
            return [('set', v.split(' '))]
        if isinstance(v, list) and all(isinstance(x, str) for x in v):
            if code == 'S' and len(v) == 1:
                return [('set', v[0].split(' '))]
            return [('set', v)]
        return [REFUSE]
    if v is None:
        return [REFUSE] if code in ('K', 'E') and not null_ok else [('set', None)]
    if code in ('s', 't'):
        if isinstance(v, str):
            return [('set', v)]
        return [REFUSE] if code == 's' else None
    if code == 'b':
        return [('set', v)] if isinstance(v, bool) else [REFUSE]
    if isinstance(v, bool):
        return [REFUSE]
    if code == 'i':
        if isinstance(v, int):
            return [('set', v)]
        if isinstance(v, float):
            return [REFUSE, ('set', int(v))]
        if isinstance(v, str):
            try:
                n = int(v)
            except ValueError:
                return [REFUSE]
            return [('set', n)] if re.fullmatch(r'-?[0-9]{1,4000}', v) else [('set', n), REFUSE]
        return [REFUSE]
    if code in ('J', 'D'):
        if isinstance(v, dict):
            return [('set', v)]
        if isinstance(v, str):
            try:
                d = json.loads(v)
            except ValueError:
                return [REFUSE]
            return [('set', d)] if isinstance(d, dict) else [REFUSE]
        return [REFUSE]
    if code == 'T':
        return [('set', v)] if isinstance(v, (str, dict)) else [REFUSE]
    return None


def typed(code, v):
    """Is v a value the declared type of a nested message parameter admits?"""
    if v is None:
        return True
    if code in ('K', 'E'):
        return isinstance(v, list) and all(isinstance(x, nested(code)) for x in v)
    if code == 't':
        return isinstance(v, (str, int, float)) and not isinstance(v, bool)
    return isinstance(v, nested(code))


def nested(code):
    """The class of the messages a parameter holds."""
    if code in ('M', 'X:IdentityAssuranceClaims'):   # the latter also holds requests for such claims
        from oidcmsg.message import Message
        return Message
    ida = 'oidc.identity_assurance:'
    return msgs.cls_of({'K': 'oidc:Link', 'E': ida + 'Evidence', 'A': 'oidc:AddressClaim', 'C': 'oidc:ClaimsRequest', 'Q': 'oidc:Claims'}.get(code) or
                       ida + code[2:])


def decide(rec, key, param, v, how, got, present, before):
    """got: ('ok', message) or ('exc', e) after giving param the value v."""
    spec = SPECS[key]
    code = spec.params[param.split('#')[0]]
    null_ok = param.split('#')[0] in spec.null_ok
    want = model(code, v, null_ok)
    if how != 'item' and v in ('', ['']):
        want = [UNSET]
    if got[0] == 'exc':
        rec.check(want is None or REFUSE in want, '%s(%s=%r) by %s refused (%r), expected %r', key, param, v, how, got[1],
                  want)
        return 'refused'
    m = got[1]
    if param not in m:
        rec.check(want is None or UNSET in want or (before is None and UNSET in want),
                  '%s(%s=%r) by %s left it unset, expected %r', key, param, v, how, want)
        return 'unset'
    stored = m[param]
    if present and want is not None and UNSET in want:
        rec.check(msgs.same(msgs.plain(stored), before), '%s[%s]=%r changed the value to %r', key, param, v, stored)
        return 'unset'
    if want is None:
        rec.check(typed(code, stored), '%s(%s=%r) by %s stored %r, not of the declared type', key, param, v, how, stored)
    else:
        rec.check(any(w not in (UNSET, REFUSE) and msgs.same(stored, w[1]) for w in want),
                  '%s(%s=%r) by %s stored %r, expected %r', key, param, v, how, stored, want)
    return 'stored'


def one(c, rec):
    (key, param), v, tag, old = c
    cls = msgs.cls_of(key)
    spec = SPECS[key]
    code = spec.params[param]
    given = copy.deepcopy(v)
    ways = [('dict', param, lambda: cls(set_defaults=False).from_dict({param: copy.deepcopy(v)})),
            ('constructor', param, lambda: cls(set_defaults=False, **{param: copy.deepcopy(v)})),
            ('json', param, lambda: cls(set_defaults=False).from_json(json.dumps({param: v})))]
    if tag is not None:
        t = '%s#%s' % (param, tag)
        ways.append(('tagged dict', t, lambda: cls(set_defaults=False).from_dict({t: copy.deepcopy(v)})))
    for how, p, fn in ways:
        res = decide(rec, key, p, given, how, outcome(fn), False, None)
    rec.cls('%s %s' % (code[:2], res))

    # item assignment, over nothing and over an old value
    for with_old in (False, True):
        m = cls(set_defaults=False)
        if with_old:
            m.from_dict({param: old})
            if param not in m:
                continue
        before = msgs.plain(m[param]) if with_old else None

        def assign():
            m[param] = copy.deepcopy(v)
            return m
        got = outcome(assign)
        decide(rec, key, param, given, 'item', got, with_old, before)
        if got[0] == 'exc':
            now = msgs.plain(m)
            rec.check(msgs.same(now, {param: before} if with_old else {}),
                      'refused %s[%s]=%r left %r', key, param, given, now)
    well = {'s': str, 'i': int, 'b': bool}.get(code)
    if not (well and type(v) is well and v != ''):
        rec.nontrivial()


@st.composite
def case(draw):
    kp = draw(pair)
    code = SPECS[kp[0]].params[kp[1]]
    v = draw(st.one_of(value, value, value, msgs.value_for(code)))
    return kp, v, draw(st.sampled_from([None, 'sv', '', 'a#b'])), draw(msgs.value_for(code))


def unknown(c, rec):
    key, p, v = c
    cls = msgs.cls_of(key)
    for how, fn in (('dict', lambda: cls(set_defaults=False).from_dict({p: copy.deepcopy(v)})),
                    ('json', lambda: cls(set_defaults=False).from_json(json.dumps({p: v}))),
                    ('kwargs', lambda: cls(set_defaults=False, **{p: copy.deepcopy(v)}))):
        k, m = outcome(fn)
        rec.check(k == 'ok', '%s refused unknown %r=%r by %s: %r', key, p, v, how, m)
        if v in ('', ['']):
            rec.check(p not in m, 'blank %r kept', p)
        else:
            rec.check(p in m and msgs.same(m[p], v), '%s unknown %r=%r by %s became %r', key, p, v, how, m.get(p))
    m = cls(set_defaults=False)
    m[p] = copy.deepcopy(v)
    rec.check(msgs.same(m[p], v), '%s unknown %r=%r by assignment became %r', key, p, v, m[p])
    rec.nontrivial()


TARGETS = [Target('types', case(), one, quick=6000, thorough=200000),
           Target('unknown', st.sampled_from(msgs.KEYS).flatmap(
               lambda k: st.tuples(st.just(k), msgs.extra_keys(k), value)), unknown, quick=600, thorough=20000)]
