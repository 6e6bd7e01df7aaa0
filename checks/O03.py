"""Mix-up protection, error description characters and error message recognition against reference predicates."""
import copy
import json
from urllib.parse import urlencode

from hypothesis import strategies as st

import gen
import msgs
import valid
import vf
from vf import Target, outcome

RULE = ('a case is non-trivial if the response contains an issuer or client id and the caller expects one, or if it has an '
        'error description')
ASSUMPTIONS = ['expected values are texts', 'other rules of the message are satisfied by construction']
VALUES = ['https://op.example.org', 'https://op.example.org/', 'https://OP.example.org', 'http://op.example.org',
          'https://op.example.org:443', 'https://op.example.or', 'https://op.example.org/a', 'client1', 'client', 'client10',
          'Client1', ' client1', 'client1 ', 'client1\n', '0', 'None', 'åäö', 'a\u030aäö']
value = st.one_of(st.sampled_from(VALUES), gen.text)


def near(v):
    return st.one_of(st.sampled_from([v + 'x', v[:-1], v.upper(), v.lower(), v + '/', v + ' ', ' ' + v, v.swapcase(), v * 2,
                                      v[1:], v + '\0', v.rstrip('/'), v + '?', v + '#']), value)


@st.composite
def mixup(draw):
    key = draw(st.sampled_from(['oauth2:AuthorizationResponse', 'oidc:AuthorizationResponse']))
    p, kw = {'code': draw(gen.text)}, {}
    if draw(st.booleans()):
        p['state'] = draw(gen.text)
    for n in ('iss', 'client_id'):
        has, exp = draw(st.integers(0, 3)) > 0, draw(st.integers(0, 3)) > 0
        if has:
            p[n] = draw(value)
        if exp:
            if has:
                v = draw(st.booleans())
                kw[n] = p[n] if v else draw(near(p[n]))
            else:
                kw[n] = draw(value)
    if draw(st.booleans()):
        kw['state'] = 'whatever'
    if key.startswith('oidc:') and draw(st.booleans()):
        near_to = kw.get('client_id') or 'client1'
        one = st.one_of(st.just(near_to), st.just(near_to), near(near_to))
        aud = draw(st.one_of(one, st.lists(one, min_size=1, max_size=3)))
        if aud:
            p['aud'] = aud
    p = {k: p[k] for k in draw(st.permutations(list(p)))}
    return key, p, kw, draw(st.sampled_from(['dict', 'json', 'form', 'kwargs']))


def construct(key, p, how):
    cls = msgs.cls_of(key)
    if how == 'json':
        return cls(set_defaults=False).from_json(json.dumps(p))
    if how == 'form':
        return cls(set_defaults=False).from_urlencoded(urlencode(p, doseq=True))
    if how == 'kwargs':
        return cls(set_defaults=False, **p)
    return msgs.build(key, copy.deepcopy(p))


def mix(c, rec):
    key, p, kw, how = c
    m = construct(key, p, how)
    wrong = [n for n in ('iss', 'client_id') if n in p and n in kw and p[n] != kw[n]]
    aud = m.get('aud')
    if aud is not None and 'client_id' in kw and kw['client_id'] not in ([aud] if isinstance(aud, str) else aud):
        wrong.append('aud')
    if aud is not None:
        rec.cls('aud ' + type(aud).__name__ + (' differs' if 'aud' in wrong else ' compared' if 'client_id' in kw else ''))
    o = outcome(m.verify, **kw)
    if wrong:
        rec.check(o[0] == 'exc' or not o[1], '%s accepted although %s differ', key, wrong)
    else:
        rec.check(o == ('ok', True), '%s refused: %r', key, o[1])
    for n in ('iss', 'client_id'):
        rec.cls('%s %s' % (n, 'differs' if n in wrong else 'equal' if n in p and n in kw else 'not compared'))
        if n in p and n in kw:
            rec.nontrivial()


DESC = [k for k in msgs.KEYS if 'error_description' in msgs.SPECS[k].params]
odd = st.one_of(st.sampled_from('"\\\x7f\x80\x1f\x00\t\n\r\xa0åé€\u2028😀\x1e\x81'), st.characters(
    blacklist_categories=('Cs',)), st.integers(0, 0x24f).map(chr))


@st.composite
def described(draw):
    key = draw(st.sampled_from(DESC))
    p, kw = draw(valid.valid(key))
    txt = draw(valid.err_text)
    if draw(st.booleans()):
        i = draw(st.integers(0, len(txt)))
        txt = txt[:i] + draw(odd) + txt[i:]
    return key, p, kw, txt


def description(c, rec):
    key, p, kw, txt = c
    p = dict(p, error_description=txt)
    m = msgs.build(key, p)
    allowed = all(0x20 <= ord(ch) <= 0x7e and ch not in '"\\' for ch in txt)
    vf.clock.set(valid.NOW)
    try:
        o = outcome(m.verify, **valid.kwargs_of(kw))
    finally:
        vf.clock.real()
    if allowed:
        rec.check(o == ('ok', True), '%s refused with error description %r: %r', key, txt, o[1])
    else:
        rec.check(o[0] == 'exc' or not o[1], '%s accepted with error description %r', key, txt)
    rec.cls('allowed' if allowed else 'not allowed')
    rec.nontrivial()


def single(c, rec):
    """Every character on its own."""
    lo, hi = c
    for cp in range(lo, hi):
        if 0xd800 <= cp < 0xe000:
            continue
        ch = chr(cp)
        for txt in (ch, 'a' + ch, ch + 'b'):
            o = outcome(msgs.build('oauth2:ResponseMessage', {'error': 'e', 'error_description': txt}).verify)
            ok = 0x20 <= cp <= 0x7e and cp not in (0x22, 0x5c)
            rec.check((o[0] == 'ok' and bool(o[1])) == ok, 'error description %r: %r', txt, o[1])
    rec.nontrivial()


@st.composite
def error_or_not(draw):
    key = draw(st.sampled_from(msgs.PROTO + ['message:Message']))
    p = draw(msgs.params_for(key, with_required=draw(st.booleans())) if key in msgs.SPECS else
             st.dictionaries(gen.text, gen.text, max_size=4))
    p.pop('error', None)
    if draw(st.booleans()):
        p['error'] = draw(st.one_of(gen.text, st.sampled_from(['invalid_request', 'server_error', '0', 'false', 'none'])))
    for n in draw(st.lists(st.sampled_from(['errors', 'error#sv', 'Error', 'error_', 'ERROR', 'error description']),
                           max_size=2)):
        p[n] = 'x'
    p = {k: p[k] for k in draw(st.permutations(list(p)))}
    return key, p


def error_msg(c, rec):
    key, p = c
    from oidcmsg.oauth2 import is_error_message
    m = msgs.build(key, copy.deepcopy(p))
    rec.check(bool(is_error_message(m)) == ('error' in p), 'is_error_message(%r) is %r', p, is_error_message(m))
    if 'error' in p:
        del m['error']
        rec.check(not is_error_message(m), 'error message without error')
        rec.nontrivial()
    else:
        m['error'] = 'invalid_request'
        rec.check(is_error_message(m), 'no error message with an error')
    rec.cls('error' if 'error' in p else 'no error')


TARGETS = [Target('mix-up', mixup(), mix, quick=2500, thorough=80000),
           Target('error description', described(), description, quick=1500, thorough=50000),
           Target('single characters', None, single, examples=[(i * 64, i * 64 + 64) for i in range(40)] + [
               (0x2000, 0x2040), (0xff00, 0xff40), (0xfffe, 0x10002), (0x1f600, 0x1f602)]),
           Target('error messages', error_or_not(), error_msg, quick=800, thorough=20000)]
