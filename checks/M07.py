"""Message.request(): the target URL is kept, the parameters can be read back with a standard parser."""
from urllib.parse import parse_qs, parse_qsl, quote, quote_plus, urlsplit

from hypothesis import strategies as st

import gen
import msgs
from checks import M01
from spec import SPECS
from vf import Target

RULE = 'a case is non-trivial if the message has a parameter; distinct by URL, message and placement'
ASSUMPTIONS = ['the target URL has no fragment (RFC 6749 forbids one in redirection and endpoint URIs)']

host = st.sampled_from(['example.com', 'example.com:8443', 'localhost', '[::1]:8080', 'xn--r8jz45g.example', 'a.b.c.d'])
scheme = st.sampled_from(['https', 'http', 'com.example.app', 'custom'])
# what a parser and a serializer would not give back as it was
RAW = st.sampled_from(['', '', 'a:b/c@d', '~', "it's(*)!", 'a%20b', 'a+b', '%7e', '%C3%A5', '%c3%a5', 'a=b', '==', '?', 'a?b', 'a;b', 'x,y', '%26', '%23'])
path = st.lists(st.one_of(gen.simple, st.sampled_from(['a%20b', 'x=y', 'a;b', 'a,b', '~u', '..', 'cb', 'a&b', '%3F', '%23'])),
                max_size=3).map(lambda xs: ''.join('/' + x for x in xs))


@st.composite
def case(draw):
    key = draw(st.sampled_from(M01.KEYS))
    params = draw(msgs.params_for(key, codes=('s', 'L', 'S', 'i', 'b', 'T'), form=True))
    names = set(SPECS[key].params)
    params.update(draw(st.dictionaries(msgs.extra_keys(key).filter(lambda k: '#' not in k), gen.text, max_size=2)))
    kind = draw(st.sampled_from(['none', 'none', 'some', 'some', 'empty']))
    query = []
    if kind == 'some':
        name = st.one_of(gen.simple, gen.ident).filter(lambda k: k.split('#')[0] not in names and k not in params)
        query = draw(st.lists(st.tuples(name.map(quote_plus), st.one_of(gen.text.map(quote_plus), gen.text.map(quote), RAW)).map('='.join) |
                              name.map(quote_plus), min_size=1, max_size=3))
        if draw(st.integers(0, 4)) == 0:
            query.append(query[0])      # a parameter that is there more than once
    return key, params, draw(scheme), draw(host), draw(path), kind, query, draw(st.booleans())


def run(c, rec):
    key, params, sch, hst, pth, kind, query, frag = c
    cls = msgs.cls_of(key)
    m = msgs.build(key, params)
    loc = '%s://%s%s' % (sch, hst, pth)
    if kind != 'none':
        loc += '?' + '&'.join(query)
    before = msgs.plain(m)
    url = m.request(loc, fragment_enc=frag)
    rec.check(isinstance(url, str) and url.startswith(loc), '%r does not start with %r', url, loc)
    if not frag:
        rec.eq(m.request(loc), url, 'default placement')
    rec.check(msgs.same(msgs.plain(m), before), 'request() changed the message')
    parts = urlsplit(url)
    rec.eq((parts.scheme, parts.netloc, parts.path), (sch, hst, pth), 'URL parts of %r', url)
    want = {k: M01.parsed(SPECS[key].params.get(k), v) for k, v in params.items()}
    pairs = parse_qsl('&'.join(query), keep_blank_values=True)
    old = {k: v if len(v) > 1 else v[0] for k, v in parse_qs('&'.join(query)).items()}
    if frag:
        rec.eq(parts.query, urlsplit(loc).query, 'query of %r', url)
        part = parts.fragment
    else:
        rec.check(parts.fragment == '' and '#' not in url, 'fragment in %r', url)
        part = parts.query
        got = parse_qsl(part, keep_blank_values=True)
        rec.eq(got[:len(pairs)], pairs, 'query parameters of the target')
        want.update(old)
    if not params:
        return
    rec.eq(len(parse_qsl(part, keep_blank_values=True)), len(params) + (0 if frag else len(pairs)), 'number of parameters in %r', part)
    m2 = cls(set_defaults=False).from_urlencoded(part)
    rec.check(msgs.same(msgs.plain(m2), want), '%r read back as %r, expected %r', url, msgs.plain(m2), want)
    rec.cls('%s, query %s' % ('fragment' if frag else 'query', kind))
    rec.nontrivial()


TARGETS = [Target('request', case(), run, quick=3000, thorough=80000)]
