"""Message level generators and helpers on top of the specification table."""
import importlib

from hypothesis import strategies as st

import gen
import vf
from spec import SPECS

_mods = {}


def cls_of(key):
    mod, name = key.split(':')
    if mod not in _mods:
        _mods[mod] = importlib.import_module('oidcmsg.' + mod)
    return getattr(_mods[mod], name)


KEYS = sorted(SPECS)
PROTO = [k for k in KEYS if not k.startswith('oidc.identity_assurance')]
IDA = [k for k in KEYS if k.startswith('oidc.identity_assurance')]

list_of_tokens = st.lists(gen.token, min_size=1, max_size=4)
list_of_texts = st.lists(gen.text, min_size=1, max_size=4)

address = st.dictionaries(st.sampled_from(['formatted', 'street_address', 'locality', 'region', 'postal_code',
                                           'country', 'x_extra']), gen.text, min_size=1, max_size=4)
address_null = st.dictionaries(st.sampled_from(['formatted', 'street_address', 'country', 'x_extra']), st.one_of(gen.text, st.none()), min_size=1,
                               max_size=3)
claim_spec = st.one_of(st.none(), st.fixed_dictionaries({}, optional={
    'essential': st.booleans(), 'value': gen.json_value, 'values': st.lists(gen.scalar, max_size=3)}))
claim_names = st.one_of(st.sampled_from(['name', 'email', 'sub', 'auth_time', 'acr', 'picture', 'name#sv',
                                         'http://example.info/claims/groups']), gen.ident)
claims_member = st.dictionaries(claim_names, claim_spec, min_size=1, max_size=4)
claims_request = st.fixed_dictionaries({}, optional={'userinfo': claims_member, 'id_token': claims_member}) \
    .filter(lambda d: d)
ts_text = st.one_of(st.sampled_from(['2012-04-23T18:25:43+0100', '2012-04-23T18:25Z', '2020-01-01',
                                     '2012-04-23T18:25:43.511+01']), gen.text.filter(
    lambda s: not s.strip().lstrip('+-').replace('_', '').isdigit()))


def value_for(code, form=False):
    """Strategy for well typed values of a parameter, for JSON style transports (form: for url encoding)."""
    c = code
    if form and c == 'L':
        return list_of_tokens
    if c == 's' or c == 'T':
        return gen.text
    if c == 't':
        return ts_text
    if c == 'i':
        return gen.integer
    if c == 'b':
        return st.booleans()
    if c == 'L':
        return list_of_texts
    if c == 'S':
        return list_of_tokens
    if c in ('J', 'D'):
        return gen.json_object.filter(lambda d: d)
    if c == 'A':
        return address if form else st.one_of(address, address_null)
    if c == 'M':
        return st.dictionaries(gen.ident, gen.json_value.filter(lambda v: v not in ('', [''])), min_size=1,
                               max_size=3)
    if c == 'Q':
        return claims_member
    if c == 'C':
        return claims_request
    if c == 'K':
        t = gen.text if form else st.one_of(gen.text, gen.text, st.none())
        return st.lists(st.fixed_dictionaries({'rel': gen.text} if form else {}, optional={
            'rel': t, 'type': t, 'href': t, 'titles': st.dictionaries(gen.simple, gen.text, min_size=1, max_size=2)}), min_size=1, max_size=3)
    if c == 'E':
        return st.lists(st.deferred(lambda: params_for('oidc.identity_assurance:IdDocument', 1 if form else 0, with_required=form or None)), min_size=1,
                        max_size=2)
    if c.startswith('X:'):
        return st.deferred(lambda: params_for('oidc.identity_assurance:' + c[2:], 1)).filter(lambda d: d)
    raise KeyError(c)


# characters of error_description that a verifiable message may use
def params_for(key, min_params=0, with_required=True, max_optional=5, codes=None, form=False):
    """Well typed parameters of a message: all required ones and some optional ones."""
    spec = SPECS[key]
    req = sorted(spec.required) if with_required is not False else []
    opt = [p for p in spec.params if p not in req and (codes is None or spec.params[p] in codes)]

    @st.composite
    def build(draw):
        names = list(req) if with_required is not None or draw(st.integers(0, 3)) else []
        if opt:
            k = draw(st.integers(0, min(max_optional, len(opt))))
            if len(names) + k < min_params:
                k = min_params
            names += draw(st.lists(st.sampled_from(opt), min_size=min(k, len(opt)), max_size=min(k, len(opt)),
                                   unique=True))
        names = draw(st.permutations(names)) if len(names) > 1 else names
        return {n: draw(value_for(spec.params[n], form)) for n in names}
    return build()


def extra_keys(key):
    spec = SPECS[key]
    return gen.ident.filter(lambda k: k and k.split('#')[0] not in spec.params and k not in ('self', 'set_defaults'))


def plain(v):
    """A message value as plain data, to compare content whatever the classes."""
    from oidcmsg.message import Message
    if isinstance(v, Message):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return v


def same(a, b):
    """Equality that tells True from 1 and 1 from 1.0."""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def build(key, params):
    """An instance with exactly these parameters."""
    cls = cls_of(key)
    m = cls(set_defaults=False)
    m.from_dict(params)
    return m
