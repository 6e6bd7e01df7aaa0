"""The message factories: every name, near misses, and arbitrary parameters."""
import copy

from hypothesis import strategies as st

import gen
import msgs
from spec import SPECS
from vf import Target, outcome

RULE = 'a case is non-trivial if the name is one of a message of the package or one edit away from one'
ASSUMPTIONS = ['Message and ResponseMessage count as messages of both modules']
BY_MOD = {}
for _k in msgs.KEYS:
    _m, _n = _k.split(':')
    BY_MOD.setdefault(_m, {})[_n] = _k
OAUTH2 = dict(BY_MOD['oauth2'])
OIDC = dict(OAUTH2)
OIDC.update(BY_MOD['oidc'])
EVERY = sorted({n for m in BY_MOD.values() for n in m})
# instances the module may hand out for names outside of the table (the base class)
BASE = ('Message',)


def edit(t):
    n, i, c, how = t
    i %= len(n)
    return {'case': n[:i] + n[i].swapcase() + n[i + 1:], 'drop': n[:i] + n[i + 1:], 'add': n[:i] + c + n[i:],
            'suffix': n + c, 'lower': n.lower(), 'dotted': 'oidc.' + n, 'space': n + ' '}[how]


name = st.one_of(
    st.sampled_from(EVERY), st.sampled_from(EVERY), st.sampled_from(sorted(OIDC)),
    st.tuples(st.sampled_from(EVERY), st.integers(0, 40), gen.simple,
              st.sampled_from(['case', 'drop', 'add', 'suffix', 'lower', 'dotted', 'space'])).map(edit),
    st.sampled_from(['', 'factory', 'KeyError', 'VerificationError', 'Exception', 'JWT', 'SINGLE_REQUIRED_STRING', 'logger',
                     'Response', 'ErrorResponse', 'dict', 'AtHashError', 'MessageException', 'None', '__name__',
                     'DeviceAuthorizationRequest']), gen.text)


@st.composite
def case(draw):
    n = draw(name)
    k = OIDC.get(n) or OAUTH2.get(n)
    if k:
        if n in OAUTH2 and draw(st.booleans()):
            k = OAUTH2[n]
        params = draw(msgs.params_for(k, with_required=draw(st.booleans())))
        params.update(draw(st.dictionaries(msgs.extra_keys(k).filter(lambda x: x != 'msgtype'), gen.json_value, max_size=2)))
    else:
        params = draw(st.dictionaries(gen.ident.filter(lambda x: x not in ('msgtype', 'self', 'set_defaults')), gen.text,
                                      max_size=2))
    return n, params


def run(c, rec):
    n, params = c
    from oidcmsg import oauth2, oidc
    for label, factory, table in (('oauth2', oauth2.factory, OAUTH2), ('oidc', oidc.factory, OIDC)):
        o = outcome(factory, n, **copy.deepcopy(params))
        if n in BASE:
            continue
        if n not in table:
            rec.check(o == ('ok', None), '%s.factory(%r) gave %r', label, n, o)
            rec.cls(label + ' unknown name')
            continue
        cls = msgs.cls_of(table[n])
        want = outcome(cls, **copy.deepcopy(params))
        rec.eq(o[0], want[0], '%s.factory(%r, %r)' % (label, n, params))
        if o[0] == 'ok':
            rec.check(type(o[1]) is cls, '%s.factory(%r) is a %s.%s', label, n, type(o[1]).__module__, type(o[1]).__name__)
            rec.check(msgs.same(msgs.plain(o[1]), msgs.plain(want[1])) and o[1] == want[1],
                      '%s.factory(%r, %r) holds %r', label, n, params, msgs.plain(o[1]))
            more = factory(n, **copy.deepcopy(params))
            o[1]['zz mark'] = 'x'
            rec.check(more is not o[1] and 'zz mark' not in more and 'zz mark' not in factory(n, **copy.deepcopy(params)),
                      '%s.factory(%r) gave the same instance again', label, n)
            del o[1]['zz mark']
            full = dict(SPECS[table[n]].defaults)
            full.update({k: v for k, v in params.items() if v not in ('', [''])})
            if table[n] == (OIDC if label == 'oidc' else OAUTH2)[n] and all(
                    k in SPECS[table[n]].params and type(v) is str for k, v in params.items() if
                    SPECS[table[n]].params.get(k) == 's'):
                rec.check(all(msgs.same(o[1].get(k), v) for k, v in full.items() if SPECS[table[n]].params.get(k) == 's'),
                          '%s.factory(%r): parameters lost', label, n)
        else:
            rec.check(type(o[1]) is type(want[1]), '%s.factory(%r) raised %r', label, n, o[1])
        rec.cls(label + ' known name')
    rec.nontrivial()


def every(c, rec):
    """Each name once, without parameters."""
    from oidcmsg import oauth2, oidc
    for n, k in sorted(OAUTH2.items()):
        rec.check(type(oauth2.factory(n)) is msgs.cls_of(k), 'oauth2.factory(%r)', n)
    for n, k in sorted(OIDC.items()):
        rec.check(type(oidc.factory(n)) is msgs.cls_of(k), 'oidc.factory(%r)', n)
    for f, table in ((oauth2.factory, OAUTH2), (oidc.factory, OIDC)):
        for n in sorted(table):
            one, two = f(n), f(n)
            one['zz mark'] = 'x'
            rec.check(one is not two and 'zz mark' not in two and 'zz mark' not in f(n), 'factory(%r) gave one instance twice', n)
    rec.nontrivial()


TARGETS = [Target('all names', None, every, examples=[0]),
           Target('names', case(), run, quick=1600, thorough=40000)]
