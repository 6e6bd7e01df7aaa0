"""Nested values given in every representation: as a dictionary, a message of the class, a plain message, JSON text, form text, in a
list of one; and the same to the (de)serializers themselves: metamorphic comparison with the dictionary."""
import copy
import importlib
import json
from urllib.parse import urlencode

from hypothesis import strategies as st

import gen
import msgs
from checks.M03 import nested, typed
from spec import SPECS
from vf import Target, outcome

RULE = 'a case is non-trivial if the nested value has at least one member'
ASSUMPTIONS = ['members of nested values are of their declared types', 'which representations a parameter takes is not decided beyond '
               'dictionaries, messages of its class, what the package itself writes and JSON text for the parameters of a class of their own',
               'lists of nested messages are not sent in forms; times in forms are read as numbers']
PLACES = [(k, n, c) for k in msgs.KEYS for n, c in SPECS[k].params.items() if c in 'AMQCJDKE' or c.startswith('X:')]


def content(v):
    """Without what is null, which some representations have no place for."""
    if isinstance(v, dict):
        return {k: content(x) for k, x in v.items()}
    if isinstance(v, list):
        return [content(x) for x in v]
    return v


@st.composite
def case(draw):
    key, n, c = draw(st.sampled_from(PLACES))
    v = draw(msgs.value_for(c))
    if c in ('K', 'E') and draw(st.booleans()):
        v = v[:1]
    return key, n, v


def message_of(code, d):
    cls = nested(code)
    m = cls(set_defaults=False)
    m.from_dict(copy.deepcopy(d))
    return m


def texts(d):
    return isinstance(d, dict) and d and all(isinstance(x, str) and x for x in d.values())


def representations(code, v):
    """(name, value, must it be taken)"""
    from oidcmsg.message import Message
    if code in ('J', 'D'):
        yield 'JSON text', json.dumps(v), True
        yield 'indented JSON text', json.dumps(v, indent=1), True
        yield 'JSON text in ASCII', json.dumps(v, ensure_ascii=False), True
        return
    if code in ('K', 'E'):
        yield 'list of messages', [message_of(code, x) for x in v], True
        yield 'mixed list', [message_of(code, x) if i % 2 else copy.deepcopy(x) for i, x in enumerate(v)], True
        yield 'list of plain messages', [Message(**copy.deepcopy(x)) for x in v], False
        yield 'list of JSON texts', [json.dumps(x) for x in v], False
        yield 'JSON text', json.dumps(v), False
        if len(v) == 1:
            yield 'single dictionary', copy.deepcopy(v[0]), True
            yield 'single message', message_of(code, v[0]), True
        return
    yield 'message', message_of(code, v), True
    yield 'plain message', Message(**copy.deepcopy(v)), False
    yield 'JSON text', json.dumps(v), False
    yield 'list of one', [copy.deepcopy(v)], False
    if texts(v) and not {'time', 'created_at', 'date', 'date_of_issuance', 'date_of_expiry'} & set(v):      # times are read as numbers there
        yield 'form text', urlencode(v), False


def ways(key, n, value):
    cls = msgs.cls_of(key)

    def item():
        m = cls(set_defaults=False)
        m[n] = value
        return m

    yield 'dict', lambda: cls(set_defaults=False).from_dict({n: value})
    yield 'constructor', lambda: cls(set_defaults=False, **{n: value})
    yield 'item', item
    if isinstance(value, str):
        yield 'form', lambda: cls(set_defaults=False).from_urlencoded(urlencode({n: value}))
        yield 'JSON', lambda: cls(set_defaults=False).from_json(json.dumps({n: value}))


def given(c, rec):
    key, n, v = c
    code = SPECS[key].params[n]
    cls = msgs.cls_of(key)
    first = cls(set_defaults=False).from_dict({n: copy.deepcopy(v)})
    want = msgs.plain(first[n])
    rec.check(typed(code, first[n]) if code not in ('J', 'D') else isinstance(first[n], dict), '%s: %r stored as %r', n, v, first[n])
    for name, value, always in representations(code, v):
        before = msgs.plain(value)
        for way, make in ways(key, n, value):
            if way == 'form' and code in ('K', 'E'):
                continue
            # what the declared conversion of a class of its own reads, and what anything reads from a form
            must = always or name == 'JSON text' and (way == 'form' or code not in ('K', 'E', 'M', 'X:IdentityAssuranceClaims')) or \
                name == 'form text' and way == 'form' and code not in ('C', 'Q')
            o = outcome(make)
            if o[0] == 'exc':
                rec.check(not must, '%s of %s as %s by %s refused: %r', n, key, name, way, o[1])
                rec.cls('%s refused' % name)
                continue
            m = o[1]
            if n not in m:
                rec.check(not must, '%s of %s as %s by %s is not there', n, key, name, way)
                continue
            got = m[n]
            if isinstance(got, str):        # kept as it came
                rec.check(not must and got == value, '%s of %s as %s by %s stored as %r', n, key, name, way, got)
                rec.cls('%s kept as text' % name)
                continue
            rec.check(code in ('J', 'D') or typed(code, got) or name in ('list of one', 'plain message', 'list of plain messages'), '%s of %s as %s by %s stored as %r', n, key, name, way, got)
            rec.check(msgs.same(msgs.plain(got), want) or name == 'list of one' and msgs.same(msgs.plain(got), [want]),
                      '%s of %s as %s by %s: %r, as a dictionary: %r', n, key, name, way, msgs.plain(got), want)
            rec.cls('%s taken' % name)
        rec.check(msgs.same(msgs.plain(value), before), '%s of %s as %s: the value given was changed to %r', n, key, name, value)
    # as the package writes it
    for fmt in ('json', 'dict', 'jwt'):
        m = cls(set_defaults=False).from_dict({n: copy.deepcopy(v)})
        if fmt == 'jwt':
            from cryptojwt.jws.jws import JWS
            back = cls(set_defaults=False).from_jwt(JWS(m.to_json(), alg='none').sign_compact([]), None, verify=False)
        else:
            back = cls(set_defaults=False).deserialize(m.serialize(fmt), fmt)
        rec.check(msgs.same(msgs.plain(back[n]), want), '%s of %s written as %s comes back as %r, was %r', n, key, fmt, msgs.plain(back[n]), want)
    rec.cls(code)
    if v:
        rec.nontrivial()


# --- the functions themselves
I = 'oidc.identity_assurance'
# (module, name, class of what it gives, does it take JSON text, does it take form text, is form text of a JSON text understood)
ONE = [('oidc', 'address', 'oidc:AddressClaim'), ('oidc', 'claims', 'oidc:Claims'), ('oidc', 'registration_request', 'oidc:RegistrationRequest'),
       ('oidc', 'claims_request', 'oidc:ClaimsRequest'), ('oidc', 'jwt', 'oidc:JsonWebToken'), (I, 'address', 'oidc:AddressClaim'), (I, 'place_of_birth', I + ':PlaceOfBirth'),
       (I, 'id_document', I + ':IdDocument'), (I, 'utility_bill', I + ':UtilityBill'), (I, 'qes', I + ':QES'), (I, 'provider', I + ':Provider'),
       (I, 'verifier', I + ':Verifier'), (I, 'issuer', I + ':Issuer'), (I, 'document', I + ':Document'), (I, 'evidence', I + ':Evidence'),
       (I, 'verification_element', I + ':VerificationElement'), ('message', 'msg', None)]
MANY = [('oidc', 'link', 'oidc:Link'), ('message', 'msg_list', None), (I, 'evidence_list', I + ':Evidence')]
FREE = {'oidc:Claims': msgs.claims_member, 'oidc:ClaimsRequest': msgs.claims_request, I + ':PlaceOfBirth': msgs.address}


def members(key):
    if key in FREE:
        return FREE[key]
    if key is None:
        return st.dictionaries(gen.ident.filter(lambda k: k not in ('self', 'set_defaults')), gen.json_value.filter(lambda v: v not in ('', [''])), min_size=1, max_size=3)
    if key not in SPECS:
        return msgs.address
    return msgs.params_for(key, 1).filter(lambda d: d)


@st.composite
def function_case(draw):
    mod, name, key = draw(st.sampled_from(ONE + MANY))
    many = (mod, name, key) in MANY
    v = draw(st.lists(members(key), min_size=1, max_size=3)) if many else draw(members(key))
    return mod, name, key, v, draw(st.sampled_from(['dict', 'json']))


def functions(c, rec):
    mod, name, key, v, fmt = c
    from oidcmsg.message import Message
    module = importlib.import_module('oidcmsg.' + mod)
    fn = getattr(module, name + '_deser')
    cls = msgs.cls_of(key) if key else Message
    many = isinstance(v, list)

    def content_of(o, what):
        for x in o if many else [o]:
            rec.check(isinstance(x, cls) and (type(x) is cls or name == 'claims_request'), '%s gives %s of %s', what, type(x), name)
        return msgs.plain(o)
    ref = [cls().from_dict(copy.deepcopy(x)) for x in v] if many else cls().from_dict(copy.deepcopy(v))
    want = msgs.plain(ref)
    given = copy.deepcopy(v)
    got = fn(given, fmt)
    rec.check(msgs.same(content_of(got, 'a dictionary'), want), '%s_deser of %r gives %r', name, v, msgs.plain(got))
    rec.check(msgs.same(given, v), '%s_deser changed what it was given to %r', name, given)
    kept = outcome(fn, got, fmt)
    if kept[0] == 'ok':
        rec.check(msgs.same(content_of(kept[1], 'a message'), want), '%s_deser of a message gives %r, expected %r', name, msgs.plain(kept[1]), want)
    if not many:
        text = fn(json.dumps(v), 'json')
        rec.check(msgs.same(content_of(text, 'JSON text'), want), '%s_deser of JSON text gives %r, expected %r', name, msgs.plain(text), want)
        for f2 in ('dict', 'urlencoded'):
            o = outcome(fn, json.dumps(v), f2)
            rec.check(o[0] == 'ok' or f2 == 'dict' and name in ('msg', 'jwt'), '%s_deser refuses JSON text as %s: %r', name, f2, o[1])
            if o[0] == 'ok':
                rec.check(msgs.same(content_of(o[1], 'JSON text'), want), '%s_deser of JSON text as %s gives %r, expected %r', name, f2, msgs.plain(o[1]), want)
                rec.cls('JSON text as %s' % f2)
        for other in ('{', '[', 'nope', '"', '[1]', '"x"', '1'):
            o = outcome(fn, other, 'json')
            rec.check(o[0] == 'exc', '%s_deser takes %r as JSON: %r', name, other, o[1])
        if texts(v) and key != 'oidc:ClaimsRequest' and not any(set(SPECS[key].params.get(k, 's') if key in SPECS else 's') - set('s') for k in v):
            o = outcome(fn, urlencode(v), 'urlencoded')
            if o[0] == 'ok':
                rec.check(msgs.same(content_of(o[1], 'form text'), want), '%s_deser of form text gives %r, expected %r', name, msgs.plain(o[1]), want)
                rec.cls('form text')
    # and written again
    ser = module.msg_list_ser if many and hasattr(module, 'msg_list_ser') else None
    if mod == 'oidc' and name == 'link':
        ser = module.link_list_ser
    if not many:
        ser = getattr(module, 'claims_ser' if name == 'claims' else 'msg_ser_json' if name in ('claims_request', 'place_of_birth') else 'msg_ser')
    held = msgs.plain(got)
    out = outcome(ser, got, fmt)
    if out[0] == 'ok':
        w = out[1]
        if fmt == 'json':
            w = json.loads(w) if isinstance(w, str) else w      # the members of an outer object are written as objects
            w = [json.loads(x) if isinstance(x, str) else x for x in w] if many else w
        again = [cls().from_dict(x) for x in w] if many else cls().from_dict(w)
        rec.check(msgs.same(msgs.plain(again), want), '%s written as %s is %r, was %r', name, fmt, out[1], want)
        rec.check(msgs.same(msgs.plain(got), held), 'writing changed the message')
    else:
        rec.check(False, '%s cannot be written as %s: %r', name, fmt, out[1])
    rec.cls(name)
    if v:
        rec.nontrivial()


# --- the general ones
def general(c, rec):
    from oidcmsg import oidc
    from oidcmsg.message import (Message, any_deser, any_ser, msg_ser, sp_sep_list_deserializer, sp_sep_list_serializer)
    v, many, words, fmt = c
    before = copy.deepcopy((v, many, words))
    m = Message().from_dict(copy.deepcopy(v))
    want = msgs.plain(m)
    # dictionaries, messages and texts written alike
    rec.check(msgs.same(msg_ser(copy.deepcopy(v), 'dict'), v) and msgs.same(msgs.plain(msg_ser(m, 'dict')), want), 'msg_ser as dict')
    rec.check(msgs.same(json.loads(msg_ser(copy.deepcopy(v), 'json')), v) and msgs.same(json.loads(msg_ser(m, 'json')), want), 'msg_ser as json')
    flat = {k: x for k, x in v.items() if isinstance(x, str) and x}
    form = msg_ser(copy.deepcopy(flat), 'urlencoded')
    rec.eq(msgs.plain(Message().from_urlencoded(form)) if flat else {}, flat, 'msg_ser as form')
    for f in ('dict', 'json', 'urlencoded'):
        rec.eq(msg_ser(words[0], f), words[0], 'msg_ser of a text as %s', f)
    # anything
    rec.eq([any_ser(x) for x in (words[0], 3, True, False)], [words[0], 3, True, False], 'any_ser of simple values')
    rec.check(msgs.same(json.loads(any_ser(copy.deepcopy(v), fmt)), v), 'any_ser of a dictionary')
    rec.check(msgs.same(json.loads(any_ser(m, 'json')), want), 'any_ser of a message')
    rec.check(outcome(any_ser, None)[0] == 'exc' and outcome(any_ser, 1.5)[0] == 'exc' and outcome(any_deser, 'x')[0] == 'exc', 'any of nothing')
    got = any_ser(copy.deepcopy(many), fmt)
    rec.check(msgs.same(json.loads(got) if isinstance(got, str) else msgs.plain(got), many), 'any_ser of a list: %r', got)
    if not any('self' in x or 'set_defaults' in x for x in many + [v]):
        rec.check(isinstance(any_deser(copy.deepcopy(v)), Message) and msgs.same(msgs.plain(any_deser(copy.deepcopy(v))), want), 'any_deser')
    got = any_deser(copy.deepcopy(many), 'dict')
    rec.check(all(isinstance(x, Message) for x in got) and msgs.same(msgs.plain(got), msgs.plain([Message().from_dict(copy.deepcopy(x)) for x in many])),
              'any_deser of a list: %r', got)
    # a link alone or in a list
    link = oidc.Link(rel=words[0], href=words[-1])
    for f in ('json', 'dict'):
        one, two = oidc.link_list_ser(link, f), oidc.link_list_ser([link, link], f)
        rec.check(two == [one, one] and (json.loads(one) if f == 'json' else one) == {'rel': words[0], 'href': words[-1]}, 'link as %s: %r', f, one)
    # texts and lists of them
    text = ' '.join(words)
    rec.eq((sp_sep_list_serializer(list(words)), sp_sep_list_serializer(text)), (text, text), 'space separated list')
    rec.eq((sp_sep_list_deserializer(text), sp_sep_list_deserializer([text]), sp_sep_list_deserializer(list(words))),
           (list(words), list(words), list(words)), 'space separated list read')
    rec.check(msgs.same((v, many, words), before) or (v, many, words) == before, 'an argument was changed')
    rec.cls(fmt)
    if v:
        rec.nontrivial()


objects = members(None)
TARGETS = [Target('representations', case(), given, quick=2500, thorough=80000),
           Target('functions', function_case(), functions, quick=2500, thorough=80000),
           Target('general functions', st.tuples(objects, st.lists(objects, max_size=3), st.lists(gen.token.filter(lambda t: ' ' not in t), min_size=1, max_size=3),
                                                 st.sampled_from(['dict', 'json', 'urlencoded'])), general, quick=400, thorough=20000)]
