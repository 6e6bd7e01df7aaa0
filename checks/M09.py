"""Classes an application defines from the predefined specifications, generated, against a model of the specification."""
import copy
import json
from urllib.parse import parse_qsl

from hypothesis import strategies as st

import gen
import msgs
import tok
import valid
import vf
from checks.M03 import REFUSE, UNSET, model, value
from spec import SPECS
from vf import Target, outcome

RULE = ('a case is non-trivial if the generated class has at least two parameters of different specifications of its '
        'own and the case gives a value, a default or a refusal for one of them')
ASSUMPTIONS = ['classes are built as doc/howto/msg_extend.rst says: c_param from predefined specifications, possibly on '
               'top of a copy of the ones of an existing class, c_default and c_allowed_values as the existing classes',
               'a required number that is 0 may count as missing', 'items of form encoded lists hold no space']

# code -> (module, name of the predefined specification)
PREDEF = {'s': 'SINGLE_OPTIONAL_STRING', 's!': 'SINGLE_REQUIRED_STRING', 'i': 'SINGLE_OPTIONAL_INT',
          'i!': 'SINGLE_REQUIRED_INT', 'b!': 'SINGLE_REQUIRED_BOOLEAN', 'b': 'oidc:SINGLE_OPTIONAL_BOOLEAN',
          'L': 'OPTIONAL_LIST_OF_STRINGS', 'L!': 'REQUIRED_LIST_OF_STRINGS', 'S': 'OPTIONAL_LIST_OF_SP_SEP_STRINGS',
          'S!': 'REQUIRED_LIST_OF_SP_SEP_STRINGS', 'J': 'SINGLE_OPTIONAL_JSON', 'J!': 'SINGLE_REQUIRED_JSON',
          'M': 'OPTIONAL_MESSAGE', 'M!': 'REQUIRED_MESSAGE', 'ML': 'OPTIONAL_LIST_OF_MESSAGES',
          'DL': 'OPTIONAL_LIST_OF_DICTS', 'DL!': 'REQUIRED_LIST_OF_DICTS'}
PLAIN_LIST = ([str], False, None, None, False)      # 'PL': a list without serializer
CODES = sorted(PREDEF) + ['PL']
NAMES = ['status', 'p1', 'p2', 'x-y', 'https://example.com/claim', 'jwt', 'lax', 'keys', 'get', 'verify', '_dict',
         'c_param', 'type', 'åäö', 'A', 'a', 'lev', 'item', 'key', 'cls', 'dictionary', 'jws_header', 'verify_ssl']
PARENTS = {'': [], 'oauth2:ResponseMessage': ['error', 'error_uri'],
           'oauth2:TokenIntrospectionRequest': ['token', 'client_id'],
           'oauth2:AuthorizationRequest': ['client_id', 'response_type', 'state'],
           'oauth2:RefreshAccessTokenRequest': ['refresh_token', 'client_id'],
           'oidc.session:EndSessionResponse': ['state'], 'oidc:AddressClaim': ['formatted']}


def spec_tuple(code):
    import oidcmsg.message as mm
    import oidcmsg.oidc as oo
    if code == 'PL':
        return PLAIN_LIST
    n = PREDEF[code]
    return getattr(oo, n[5:]) if n.startswith('oidc:') else getattr(mm, n)


def obj(d=2):
    return st.dictionaries(gen.ident, gen.json_value.filter(lambda v: v not in ('', [''])), min_size=1, max_size=d)


def val(code, form=False):
    c = code.rstrip('!')
    if c == 'ML':
        return st.lists(obj(), min_size=1, max_size=3)
    if c == 'DL':
        return st.lists(st.one_of(obj(), st.just({})), min_size=1, max_size=3)
    if c == 'PL':
        return st.lists(gen.text, min_size=1, max_size=3)
    return msgs.value_for(c, form)


@st.composite
def klass(draw, wild=True, allowed=True, defaults=True, min_own=1):
    """A class description: parent, own parameters, defaults, allowed values, wildcard."""
    parent = draw(st.sampled_from(sorted(PARENTS)))
    names = draw(st.lists(st.one_of(st.sampled_from(NAMES), st.sampled_from(NAMES), gen.simple), min_size=min_own,
                          max_size=5, unique=True))
    taken = SPECS[parent].params if parent else {}
    own = {n: draw(st.sampled_from(CODES)) for n in names if n not in taken and n not in ('self', 'set_defaults')}
    if parent and draw(st.booleans()):
        # an inherited parameter may be given another specification
        over = draw(st.sampled_from(PARENTS[parent]))
        c = SPECS[parent].params[over]
        own[over] = draw(st.sampled_from({'s': ['s', 's!'], 'S': ['S!', 'L!']}.get(c, [c])))
    dfl, alw = {}, {}
    for n, c in own.items():
        c = c.rstrip('!')
        if c in ('s', 'i', 'L', 'S', 'PL') and n not in taken:
            if allowed and draw(st.integers(0, 2)) == 0:
                one = {'i': gen.integer.filter(lambda v: v)}.get(c, gen.token)
                alw[n] = draw(st.lists(one, min_size=1, max_size=3, unique=True))
        if defaults and c in ('s', 'i', 'L', 'S', 'b', 'J') and n not in taken and draw(st.integers(0, 2)) == 0:
            if n in alw:
                dfl[n] = alw[n][0] if c in ('s', 'i') else [alw[n][-1]]
            else:
                dfl[n] = draw(val(c, True))
    star = draw(st.sampled_from([None, None, None, 's', 'i', 'L', 'J', 'ML', 'S'])) if wild else None
    return {'parent': parent, 'own': own, 'default': dfl, 'allowed': alw, 'star': star}


def make(k):
    from oidcmsg.message import Message
    base = msgs.cls_of(k['parent']) if k['parent'] else Message
    c_param = base.c_param.copy()
    c_param.update({n: spec_tuple(c) for n, c in k['own'].items()})
    if k['star']:
        c_param['*'] = spec_tuple(k['star'])
    ns = {'c_param': c_param}
    if k['default']:
        ns['c_default'] = copy.deepcopy(k['default'])
        ns['c_default'].update({n: v for n, v in base.c_default.items() if n not in k['own']})
    if k['allowed']:
        ns['c_allowed_values'] = dict(base.c_allowed_values)
        ns['c_allowed_values'].update(k['allowed'])
    return type('Application', (base,), ns)


def codes_of(k):
    """name -> code with '!' for required, of all parameters."""
    res = {}
    if k['parent']:
        sp = SPECS[k['parent']]
        res = {n: c + ('!' if n in sp.required else '') for n, c in sp.params.items()}
    res.update(k['own'])
    return res


def defaults_of(k):
    d = dict(SPECS[k['parent']].defaults) if k['parent'] else {}
    if k['default']:
        d = {n: v for n, v in d.items() if n not in k['own']}
        d.update(k['default'])
    return d


def nontrivial(k, rec):
    if len(set(k['own'].values())) >= 2:
        rec.nontrivial()
    for c in k['own'].values():
        rec.cls('spec ' + c)
    rec.cls('on top of ' + (k['parent'] or 'Message'))


@st.composite
def content(draw, k, form=False):
    """Parameters for a message of the class: all required ones, some others, extras."""
    codes = codes_of(k)
    p = {}
    if k['parent']:
        p.update(draw(valid.valid(k['parent']))[0])
    for n, c in k['own'].items():
        if c.endswith('!') or draw(st.booleans()):
            if n in k['allowed']:
                vs = st.sampled_from(k['allowed'][n])
                p[n] = draw(vs if c[0] in 'si' else st.lists(vs, min_size=1, max_size=2))
            else:
                p[n] = draw(val(c, form))
        else:
            p.pop(n, None)
    star = k['star']
    if star or draw(st.booleans()):
        keys = gen.ident.filter(lambda x: x.split('#')[0] not in codes and x not in
                                ('self', 'set_defaults', '*', 'device_code', '*#'))
        if form and not star:
            vals = st.one_of(gen.text, gen.integer)
        else:
            vals = val(star, form) if star else gen.json_value.filter(lambda v: v not in ('', ['']))
        p.update(draw(st.dictionaries(keys, vals, max_size=2)))
    return p


def code_at(k, n):
    codes = codes_of(k)
    c = codes.get(n) or codes.get(n.split('#')[0]) or k['star']
    return c.rstrip('!') if c else None


@st.composite
def rt_case(draw):
    k = draw(klass())
    p, how = draw(content(k)), draw(st.sampled_from(['dict', 'kwargs', 'json', 'assign', 'messages']))
    if k['star'] and how in ('dict', 'kwargs', 'json') and draw(st.booleans()):
        p[draw(st.sampled_from(['no_value', 'no_value#sv']))] = None     # an unknown parameter may be null whatever the others are
    return k, p, how


def roundtrip(c, rec):
    k, p, how = c
    cls = make(k)
    from oidcmsg.message import Message
    if how == 'dict':
        m = cls(set_defaults=False).from_dict(copy.deepcopy(p))
    elif how == 'kwargs':
        m = cls(set_defaults=False, **copy.deepcopy(p))
    elif how == 'json':
        m = cls(set_defaults=False).from_json(json.dumps(p))
    elif how == 'assign':
        m = cls(set_defaults=False)
        for n, v in copy.deepcopy(p).items():
            m[n] = v
    else:
        q = {}
        for n, v in copy.deepcopy(p).items():
            cc = code_at(k, n)
            if cc == 'M':
                v = Message(**v) if 'self' not in v and 'set_defaults' not in v else v
            elif cc == 'ML' and not any('self' in x or 'set_defaults' in x for x in v):
                v = [Message(**x) for x in v]
                if len(v) == 1:
                    v = v[0]
            elif cc == 'DL' and len(v) == 1:
                v = v[0]
            elif cc in ('L', 'S', 'PL') and len(v) == 1 and ' ' not in v[0] and v[0]:
                v = v[0]
            q[n] = v
        m = cls(set_defaults=False).from_dict(q)
    held = msgs.plain(m)
    rec.check(msgs.same(held, p), '%r built by %s holds %r, given %r', k, how, held, p)
    for n, v in m.items():
        cc = code_at(k, n)
        if n in codes_of(k):
            if cc == 'M':
                rec.check(isinstance(v, Message), '%r holds %r, not a message', n, v)
            if cc == 'ML':
                rec.check(all(isinstance(x, Message) for x in v), '%r holds %r, not messages', n, v)
    d = m.to_dict()
    for n, v in d.items():
        cc = code_at(k, n)
        want = ' '.join(p[n]) if cc == 'S' and p[n] is not None else p[n]
        rec.check(msgs.same(v, want), 'dictionary form of %r (%s): %r, given %r', n, cc, d[n], p[n])
    rec.check(set(d) == set(p), 'dictionary form has %r, given %r', sorted(d), sorted(p))
    txt = m.to_json()
    rec.check(msgs.same(json.loads(txt), d), 'JSON form %s differs from dictionary form %r', txt, d)
    kj = tok.jar({'me': ['oct1']}, private=True)
    for name, m2 in (('json', cls(set_defaults=False).from_json(txt)), ('dict', cls(set_defaults=False).from_dict(d)),
                     ('copy', m.copy()),
                     ('jwt', cls(set_defaults=False).from_jwt(m.to_jwt(algorithm='none'), kj, verify=False)),
                     ('jwe', cls(set_defaults=False).from_jwe(m.to_jwe([tok.key('rsa1')], 'A128GCM', 'RSA-OAEP'),
                                                              [tok.key('rsa1')]))):
        rec.check(type(m2) is cls, '%s: class %r', name, type(m2))
        rec.check(msgs.same(msgs.plain(m2), p), '%r through %s: %r, given %r', k, name, msgs.plain(m2), p)
        if how != 'assign' or not k['star']:    # item assignment leaves unknown parameters as they are
            rec.check(m2 == m, '%s: not equal', name)
    rec.check(msgs.same(msgs.plain(m), held), 'serializing changed the message')
    nontrivial(k, rec)


@st.composite
def form_case(draw):
    k = draw(klass())
    return k, draw(content(k, True)), draw(st.sampled_from([None, 'sv', 'ja-Kana-JP']))


def form(c, rec):
    k, p, tag = c
    cls = make(k)
    if tag:
        own = [n for n in k['own'] if n in p]
        if own:
            p = dict(p)
            p['%s#%s' % (own[0], tag)] = p[own[0]]
    p = {n: v for n, v in p.items() if v is not None}
    if any(isinstance(v, list) and any(not isinstance(x, (str, dict)) for x in v) for v in p.values()):
        return
    m = cls(set_defaults=False).from_dict(copy.deepcopy(p))
    wire = m.to_urlencoded()
    got = parse_qsl(wire, keep_blank_values=True)
    for n, v in p.items():
        mine = [y for x, y in got if x == n]
        cc = code_at(k, n)
        if cc in ('J', 'M', 'ML', 'DL', 'A', 'D', 'C'):
            rec.check(len(mine) == 1 and msgs.same(json.loads(mine[0]), v), '%r (%s) = %r sent as %r', n, cc, v, mine)
        elif cc in ('L', 'S'):
            rec.eq(mine, [' '.join(v)], 'list %r sent' % n)
        elif isinstance(v, list):
            rec.eq(mine, v, 'list %r sent' % n)
        else:
            rec.eq(mine, [str(v)], '%r sent' % n)
    rec.check({x for x, _ in got} == set(p), 'sent %r, given %r', got, p)
    m2 = cls(set_defaults=False).from_urlencoded(wire)
    want = {n: str(v) if isinstance(v, (int, bool)) else v for n, v in p.items()}
    rec.check(type(m2) is cls and msgs.same(msgs.plain(m2), want), '%r parsed from %s: %r, expected %r', k, wire,
              msgs.plain(m2), want)
    nontrivial(k, rec)


@st.composite
def verify_case(draw):
    k = draw(klass(wild=False))
    p = draw(content(k, True))
    kind = draw(st.sampled_from(['good', 'missing', 'other']))
    names = sorted(n for n, c in k['own'].items() if c.endswith('!'))
    if kind == 'missing' and names:
        gone = draw(st.lists(st.sampled_from(names), min_size=1, max_size=3, unique=True))
        return k, {n: v for n, v in p.items() if n not in gone}, 'missing', gone
    if kind == 'other' and k['allowed']:
        n = draw(st.sampled_from(sorted(k['allowed'])))
        ok = k['allowed'][n]
        if k['own'][n][0] == 'i':
            bad = draw(st.one_of(gen.integer, st.sampled_from(ok).map(lambda v: v + 1)).filter(lambda v: v and v not in ok))
            p[n] = bad
        else:
            bad = draw(st.one_of(gen.token, st.sampled_from(ok).map(lambda v: v + 'x'), st.sampled_from(ok).map(
                lambda v: v[:-1]), st.sampled_from(ok).map(lambda v: v.swapcase())).filter(lambda v: v and v not in ok))
            if k['own'][n][0] == 's':
                p[n] = bad
            else:
                lst = draw(st.lists(st.sampled_from(ok), max_size=2))
                lst.insert(draw(st.integers(0, len(lst))), bad)
                p[n] = lst
        return k, p, 'other', [n]
    return k, p, 'good', []


def verifies(c, rec):
    k, p, kind, names = c
    from oidcmsg.exception import MissingRequiredAttribute, NotAllowedValue
    cls = make(k)
    calls = []

    class Checked(cls):
        def verify(self, **kwargs):
            super().verify(**kwargs)
            calls.append(dict(kwargs))
            return True
    m = Checked(set_defaults=False).from_dict(copy.deepcopy(p))
    before = msgs.plain(m)
    vf.clock.set(valid.NOW)
    try:
        o = outcome(m.verify, some='thing')
    finally:
        vf.clock.real()
    zero = any(k['own'][n] == 'i!' and p.get(n) == 0 for n in k['own'])
    if kind == 'good':
        rec.check(o == ('ok', True) or zero, '%r refused %r: %r', k, p, o[1])
        rec.check(zero or len(calls) == 1 and calls[0].get('some') == 'thing', 'verify of the subclass: %r', calls)
    elif kind == 'missing':
        rec.check(o[0] == 'exc' and isinstance(o[1], MissingRequiredAttribute), '%r without %r: %r', k, names, o[1])
        rec.check(not calls, 'the checks of the base class were passed')
        o = outcome(m.to_urlencoded)
        rec.check(o[0] == 'exc' and isinstance(o[1], MissingRequiredAttribute), '%r without %r sent: %r', k, names, o[1])
        m.lax = True
        rec.check(outcome(m.to_urlencoded)[0] == 'ok', 'lax message not sent')
    else:
        rec.check(o[0] == 'exc' and (isinstance(o[1], NotAllowedValue) or zero), '%r with %r=%r: %r', k, names[0],
                  p[names[0]], o[1])
        rec.check(not calls, 'the checks of the base class were passed')
    rec.check(msgs.same(msgs.plain(m), before), 'verify changed the message: %r -> %r', before, msgs.plain(m))
    rec.cls(kind)
    nontrivial(k, rec)


@st.composite
def type_case(draw):
    k = draw(klass(wild=False, allowed=False, defaults=False))
    n = draw(st.sampled_from(sorted(k['own']) or ['p1']))
    if n not in k['own']:
        k['own'][n] = 's'
    return k, n, draw(st.one_of(value, val(k['own'][n]))), draw(st.booleans())


def obj_model(code, v):
    if code == 'DL':
        if isinstance(v, list) and (not v or v[0] is None):
            return [UNSET]
        if isinstance(v, dict):
            return [('set', [v])]
        if isinstance(v, list) and all(isinstance(x, dict) for x in v):
            return [('set', v)]
        return [REFUSE]
    if code == 'PL':
        if isinstance(v, list) and (not v or v[0] is None):
            return [UNSET]
        if isinstance(v, str):
            return [('set', [v])]
        if isinstance(v, list) and all(isinstance(x, str) for x in v):
            return [('set', v)]
        return [REFUSE]
    return model(code, v, False)


def types(c, rec):
    k, n, v, tagged = c
    code = k['own'][n].rstrip('!')
    cls = make(k)
    from oidcmsg.message import Message
    want = obj_model(code, v) if code not in ('M', 'ML') else None
    if v in ('', ['']):
        want = [UNSET]
    key = n + '#sv' if tagged else n
    for how, fn in (('dict', lambda: cls(set_defaults=False).from_dict({key: copy.deepcopy(v)})),
                    ('kwargs', lambda: cls(set_defaults=False, **{key: copy.deepcopy(v)})),
                    ('json', lambda: cls(set_defaults=False).from_json(json.dumps({key: v})))):
        o = outcome(fn)
        if o[0] == 'exc':
            rec.check(want is None or REFUSE in want, '%s(%s)=%r by %s refused: %r', n, code, v, how, o[1])
            continue
        m = o[1]
        if key not in m:
            rec.check(want is None or UNSET in want, '%s(%s)=%r by %s unset, expected %r', n, code, v, how, want)
            rec.check(len(m) == 0, 'something else set: %r', m)
            continue
        s = m[key]
        if want is None:
            if code == 'ML':
                rec.check(isinstance(s, list) and all(isinstance(x, Message) for x in s), '%s(%s)=%r by %s stored %r',
                          n, code, v, how, s)
            else:
                rec.check(s is None or isinstance(s, Message), '%s(%s)=%r by %s stored %r', n, code, v, how, s)
        else:
            rec.check(any(w not in (UNSET, REFUSE) and msgs.same(s, w[1]) for w in want),
                      '%s(%s)=%r by %s stored %r, expected %r', n, code, v, how, s, want)
    rec.cls('type ' + code)
    nontrivial(k, rec)


@st.composite
def dfl_case(draw):
    k = draw(klass(wild=False).filter(lambda k: k['default'] or SPECS.get(k['parent']) and SPECS[k['parent']].defaults))
    return k, draw(content(k, True))


def scribble(v):
    """Change a value in place, at every level."""
    if isinstance(v, list):
        for x in v:
            scribble(x)
        v.append('changed')
    elif isinstance(v, dict):
        for x in list(v.values()):
            scribble(x)
        v['changed'] = 1


def defaults(c, rec):
    k, p = c
    cls = make(k)
    parent = msgs.cls_of(k['parent']) if k['parent'] else None
    was = copy.deepcopy((parent.c_param, parent.c_default)) if parent else None
    d = defaults_of(k)
    rec.eq(msgs.plain(cls()), d, 'a new message')
    rec.eq(msgs.plain(cls(set_defaults=False)), {}, 'a new message without defaults')
    p = {n: v for n, v in p.items() if v is not None and v not in ('', [''], [])}
    full = dict(d)
    full.update(p)
    m = cls(**copy.deepcopy(p))
    rec.check(msgs.same(msgs.plain(m), full), '%r holds %r, expected %r', k, msgs.plain(m), full)
    m = cls(set_defaults=False, **copy.deepcopy(p))
    rec.check(msgs.same(msgs.plain(m), p), 'without defaults: %r', msgs.plain(m))
    m.set_defaults()
    rec.check(msgs.same(msgs.plain(m), full), 'after set_defaults(): %r, expected %r', msgs.plain(m), full)
    # changing the values of one message in place touches nothing else
    late = cls(set_defaults=False)
    late.set_defaults()
    for x in (m, cls(), late, cls().copy()):
        for n in d:
            scribble(x[n])
        rec.eq(msgs.plain(cls()), d, 'a new message after others were changed')
        rec.check(msgs.same(cls.c_default, d), 'defaults of the class became %r', cls.c_default)
    if parent:
        rec.check(was == (parent.c_param, parent.c_default), 'the parent class was changed')
        rec.eq(msgs.plain(parent()), dict(SPECS[k['parent']].defaults), 'a new message of the parent class')
    nontrivial(k, rec)


@st.composite
def help_case(draw):
    k, k2 = draw(klass(wild=False)), draw(klass(wild=False))
    p, codes, codes2 = draw(content(k)), codes_of(k), codes_of(k2)
    for n in draw(st.lists(st.sampled_from(sorted(codes2) + NAMES), max_size=3)):
        if n not in codes:
            p[n] = draw(gen.text)       # known to the one, unknown to the other
    old = {n: 'old' for n in p if n not in codes and n not in codes2 and draw(st.booleans())}
    return k, p, k2, old, draw(st.dictionaries(
        st.sampled_from(NAMES), st.one_of(gen.text0, gen.integer, st.sampled_from([0, [], {}, None, False])), max_size=3))


def helpers(c, rec):
    from oidcmsg.message import Message, add_non_standard, by_schema
    k, p, k2, old, more = c
    cls, other = make(k), make(k2)
    codes = codes_of(k)
    m = cls(set_defaults=False).from_dict(copy.deepcopy(p))
    held = msgs.plain(m)
    extra = {n: v for n, v in held.items() if n not in codes}
    rec.eq(sorted(m.parameters()), sorted(codes), 'parameters()')
    rec.eq(sorted(m.required_parameters()), sorted(n for n, c in codes.items() if c.endswith('!')), 'required_parameters()')
    ty = {'s': str, 'i': int, 'b': bool, 'J': dict, 'M': Message, 'L': [str], 'S': [str], 'PL': [str], 'ML': [Message],
          'DL': [dict]}
    for n, cc in k['own'].items():
        rec.eq(m.value_type(n), ty[cc.rstrip('!')], 'value_type(%r)' % n)
    rec.eq(m.value_type('no such parameter'), None, 'value_type of unknown')
    rec.eq(msgs.plain(m.extra()), extra, 'extra()')
    rec.eq(m.only_extras(), all(n in extra for n in held), 'only_extras()')
    known = {n: v for n, v in held.items() if n in codes}
    arg = {n: v for n, v in held.items() if n not in ('self', 'cls')}
    rec.eq(by_schema(cls, **arg), {n: v for n, v in known.items() if n in arg}, 'by_schema()')
    rec.eq(m.type(), 'Application', 'type()')
    # extras of one message are what another one is extended with
    o = other(set_defaults=False).from_dict(old)
    msgs_before = msgs.plain(m)
    want = dict(old)
    want.update({n: v for n, v in extra.items() if n not in codes_of(k2)})
    add_non_standard(o, m)
    rec.check(msgs.same(msgs.plain(o), want), 'add_non_standard() gave %r, expected %r', msgs.plain(o), want)
    rec.check(msgs.same(msgs.plain(m), msgs_before), 'add_non_standard() changed the source')
    w = m.copy()
    w.weed()
    rec.check(msgs.same(msgs.plain(w), known), 'weed() left %r, expected %r', msgs.plain(w), known)
    u = m.copy()
    u.update(more)
    full = dict(held)
    full.update(more)
    rec.check(msgs.same(msgs.plain(u), full), 'update(): %r, expected %r', msgs.plain(u), full)
    u.rm_blanks()
    rec.check(msgs.same(msgs.plain(u), {n: v for n, v in full.items() if v}), 'rm_blanks(): %r', msgs.plain(u))
    for bad in ('a=b', ['a'], None, 3):
        rec.check(outcome(m.update, bad)[0] == 'exc', 'update(%r) accepted', bad)
    rec.check(outcome(m.deserialize, 'x', 'no_such_form')[0] == 'exc', 'unknown form read')
    rec.check(outcome(m.serialize, 'no_such_form')[0] == 'exc', 'unknown form written')
    rec.check(msgs.same(msgs.plain(m), held), 'the message changed: %r -> %r', held, msgs.plain(m))
    nontrivial(k, rec)


def documented(status, rec):
    """The class of the how-to."""
    from oidcmsg.exception import MissingRequiredAttribute
    from oidcmsg.message import SINGLE_REQUIRED_INT
    from oidcmsg.oauth2 import ResponseMessage

    class StatusErrorResponse(ResponseMessage):
        c_param = ResponseMessage.c_param.copy()
        c_param.update({'status': SINGLE_REQUIRED_INT})

        def verify(self, **kwargs):
            super().verify(**kwargs)
            if not 200 <= self['status'] <= 600:
                raise ValueError('status outside allowed value space')
    rec.check('status' not in ResponseMessage.c_param, 'the base class was changed')
    m = StatusErrorResponse(error='invalid_request')
    o = outcome(m.verify)
    rec.check(isinstance(o[1], MissingRequiredAttribute), 'without status: %r', o[1])
    m['status'] = status
    o = outcome(m.verify)
    rec.check((o[0] == 'ok') == (200 <= status <= 600), 'status %d: %r', status, o[1])
    m2 = StatusErrorResponse().from_json(m.to_json())
    rec.check(m2 == m and type(m2['status']) is int, 'read back as %r', m2)
    rec.nontrivial()


TARGETS = [Target('round trips', rt_case(), roundtrip, quick=600, thorough=40000),
           Target('form', form_case(), form, quick=700, thorough=50000),
           Target('verify', verify_case(), verifies, quick=700, thorough=50000),
           Target('types', type_case(), types, quick=900, thorough=60000),
           Target('defaults', dfl_case(), defaults, quick=350, thorough=20000),
           Target('helpers', help_case(), helpers, quick=500, thorough=30000),
           Target('documented class', st.one_of(st.integers(-10, 1000), st.sampled_from([199, 200, 600, 601])), documented,
                  quick=100, thorough=500)]
