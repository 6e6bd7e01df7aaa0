"""No shared state between messages or through their classes: histories over several instances."""
import copy
import json

from hypothesis import strategies as st

import gen
import msgs
import valid
import vf
from spec import SPECS
from vf import Target, outcome

RULE = 'a history is non-trivial if a value obtained from one instance was changed in place while another one existed'
ASSUMPTIONS = ['the arguments messages are made from are separate objects']
# classes of one family inherit tables from each other
FAMILIES = {}
for _k in msgs.KEYS:
    FAMILIES.setdefault(SPECS[_k].name, []).append(_k)
DEFAULTED = [k for k in msgs.KEYS if SPECS[k].defaults]
ENUM = [(k, p) for k in msgs.KEYS for p in sorted(SPECS[k].allowed)]
GROUPS = [
    DEFAULTED,
    ['oidc:ProviderConfigurationResponse', 'oauth2:ASConfigurationResponse', 'oidc:RegistrationRequest',
     'oidc:RegistrationResponse'],
    ['oidc:AuthorizationErrorResponse', 'oauth2:AuthorizationErrorResponse', 'oauth2:TokenErrorResponse',
     'oidc:TokenErrorResponse', 'oidc:UserInfoErrorResponse', 'oidc:ClientRegistrationErrorResponse'],
    ['oidc:AuthorizationRequest', 'oauth2:AuthorizationRequest', 'oidc:OpenIDRequest',
     'oauth2.device_authorization:AuthorizationRequest', 'oauth2:PushedAuthorizationRequest'],
    ['oauth2:AccessTokenRequest', 'oidc:AccessTokenRequest', 'oauth2.device_authorization:AccessTokenRequest',
     'oauth2:RefreshAccessTokenRequest', 'oidc:RefreshAccessTokenRequest', 'oauth2:CCAccessTokenRequest'],
    ['oidc:OpenIDSchema', 'oidc:IdToken', 'oidc.identity_assurance:IdentityAssuranceClaims', 'oidc:JsonWebToken',
     'oidc:AuthnToken', 'oidc.session:LogoutToken', 'oidc:AddressClaim'],
    msgs.KEYS,
]


@st.composite
def history(draw):
    group = draw(st.sampled_from(GROUPS))
    keys = draw(st.lists(st.sampled_from(group), min_size=1, max_size=3, unique=True))
    steps = []
    n = 0
    for _ in range(draw(st.integers(4, 14))):
        kind = draw(st.sampled_from(['new', 'new', 'bare', 'poke', 'poke', 'poke', 'verify', 'copy', 'parse', 'set',
                                     'wire'])) if n else draw(st.sampled_from(['new', 'bare', 'bare']))
        if kind in ('new', 'bare'):
            key = draw(st.sampled_from(keys))
            p = {} if kind == 'bare' else draw(valid.valid(key))[0]
            steps.append(('new', key, p))
            n += 1
        else:
            i = draw(st.integers(0, n - 1))
            if kind == 'set':
                steps.append((kind, i, draw(gen.ident), draw(gen.json_value)))
            elif kind == 'copy':
                steps.append((kind, i))
                n += 1
            elif kind == 'poke':
                steps.append((kind, i, draw(st.integers(0, 5)), draw(gen.simple)))
            elif kind == 'parse':
                key = draw(st.sampled_from(keys))
                steps.append((kind, i, draw(valid.valid(key))[0]))
            else:
                steps.append((kind, i))
    probe = draw(st.lists(st.sampled_from(ENUM), min_size=1, max_size=2))
    bad = draw(gen.simple.filter(lambda v: all(v not in vs for s in SPECS.values() for vs in s.allowed.values())))
    return steps, probe, bad


def poke(m, which, txt):
    """Change a mutable value obtained from m in place.  Returns whether there was one."""
    from oidcmsg.message import Message
    ks = [k for k in sorted(m.keys()) if isinstance(m[k], (list, dict, Message))]
    if not ks:
        return False
    v = m[ks[which % len(ks)]]
    while True:
        if isinstance(v, list):
            if v and isinstance(v[0], (dict, Message)) and which % 2:
                v = v[0]
                continue
            if v and which >= 4:
                v.pop()
            else:
                v.append(txt)
        elif isinstance(v, dict):
            v[txt] = txt
        else:
            v[txt] = txt
        return True


def fresh(rec, key, when):
    cls = msgs.cls_of(key)
    for m in (cls(), cls(set_defaults=True)):
        rec.check(msgs.same(msgs.plain(m), SPECS[key].defaults), 'defaults of %s %s are %r, specification says %r', key,
                  when, msgs.plain(m), SPECS[key].defaults)
    m = cls(set_defaults=False)
    rec.check(len(m) == 0, 'new %s without defaults %s holds %r', key, when, msgs.plain(m))
    m.set_defaults()
    rec.check(msgs.same(msgs.plain(m), SPECS[key].defaults), 'set_defaults() of %s %s: %r', key, when, msgs.plain(m))


def with_defaults(key, made):
    """A new instance with its defaults, in one of the three ways to get one."""
    cls = msgs.cls_of(key)
    if made == 2:
        m = cls(set_defaults=False)
        m.set_defaults()
        return m
    return cls(set_defaults=True) if made else cls()


def run(c, rec):
    steps, probe, bad = c
    pool, shots = [], []
    poked = False
    vf.clock.set(valid.NOW)
    try:
        for s in steps:
            touched = None
            if s[0] == 'new':
                _, key, p = s
                fresh(rec, key, 'before creation')
                m = msgs.cls_of(key)(**copy.deepcopy(p))
                want = dict(SPECS[key].defaults)
                want.update(p)
                rec.check(msgs.same(msgs.plain(m), want), 'new %s holds %r, given %r', key, msgs.plain(m), p)
                pool.append(m)
                shots.append(None)
                touched = len(pool) - 1
            elif s[0] == 'copy':
                pool.append(pool[s[1]].copy())
                shots.append(None)
                touched = len(pool) - 1
                rec.check(msgs.same(msgs.plain(pool[-1]), shots[s[1]]), 'copy differs')
            elif s[0] == 'poke':
                if poke(pool[s[1]], s[2], s[3]):
                    touched = s[1]
                    poked = poked or len(pool) > 1
            elif s[0] == 'set':
                touched = s[1]
                outcome(pool[s[1]].__setitem__, s[2], copy.deepcopy(s[3]))
            elif s[0] == 'parse':
                touched = s[1]
                outcome(pool[s[1]].from_json, json.dumps(s[2]))
            elif s[0] == 'verify':
                touched = s[1]
                outcome(pool[s[1]].verify, **valid.kwargs_of({'keyjar': None, 'sigalg': 'none'}))
            elif s[0] == 'wire':
                # serializing touches nobody, not even the message itself
                for fn in ('to_json', 'to_dict', 'to_urlencoded'):
                    outcome(getattr(pool[s[1]], fn))
            for i, m in enumerate(pool):
                if i == touched:
                    shots[i] = copy.deepcopy(msgs.plain(m))
                else:
                    rec.check(msgs.same(msgs.plain(m), shots[i]), '%r on instance %s changed instance %d: %r, was %r', s[0],
                              touched, i, msgs.plain(m), shots[i])
            rec.cls('step ' + s[0])
        for key in sorted({s[1] for s in steps if s[0] == 'new'}):
            fresh(rec, key, 'after the history')
            # and the values a new instance starts with are its own
            for made in range(3):
                a, b = with_defaults(key, made), with_defaults(key, 0)
                for which in range(3):
                    poke(a, which, 'poked')
                rec.check(msgs.same(msgs.plain(b), SPECS[key].defaults), 'two new instances of %s share values', key)
                fresh(rec, key, 'after changing another one (%s)' % ['new', 'set_defaults=True', 'set_defaults()'][made])
        for key, param in probe:
            cls = msgs.cls_of(key)
            base = {r: 'x' for r in SPECS[key].required | ({'code', 'redirect_uri'} & set(SPECS[key].params))
                    if SPECS[key].params[r] == 's'}
            if any(SPECS[key].params[r] != 's' for r in SPECS[key].required):
                continue
            ok = SPECS[key].allowed[param]
            for name, vals in sorted({n: v for k2 in msgs.KEYS for n, v in SPECS[k2].allowed.items()
                                      if n == param}.items()):
                for v in sorted(set(vals) | set(ok) | {bad}):
                    m = cls(set_defaults=False, **dict(base, **{p: a[0] for p, a in SPECS[key].allowed.items()
                                                                if p in base}))
                    m[param] = v
                    o = outcome(m.verify)
                    rec.check((o == ('ok', True)) == (v in ok), '%s(%s=%r) verified: %r', key, param, v, o)
    finally:
        vf.clock.real()
    if poked:
        rec.nontrivial()


def tables(c, rec):
    """The classes' own tables before and after everything a history does are what the specification says."""
    key = c
    cls = msgs.cls_of(key)
    rec.eq(sorted(cls.c_param), sorted(SPECS[key].params), 'parameters of %s', key)
    rec.check(msgs.same(dict(cls.c_default), SPECS[key].defaults), 'default table of %s: %r', key, cls.c_default)
    rec.nontrivial()


TARGETS = [Target('history', history(), run, quick=1600, thorough=50000),
           Target('tables', st.sampled_from(msgs.KEYS), tables, quick=200, thorough=400)]
