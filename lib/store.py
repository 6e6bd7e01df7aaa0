"""Scratch directories and generators for the storage checks."""
import contextlib
import os
import shutil
import tempfile
from urllib.parse import quote_plus

from hypothesis import strategies as st

import gen

HANDLER = 'oidcmsg.storage.abfile.AbstractFileSystem'
JSON = 'oidcmsg.storage.converter.JSON'
PASS = 'oidcmsg.storage.converter.PassThru'
QP = 'oidcmsg.storage.converter.QPKey'


@contextlib.contextmanager
def scratch():
    """A directory of its own; runs as an unprivileged user, everything below VF_WORK."""
    d = tempfile.mkdtemp(dir=os.environ['VF_WORK'])
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


ODD = ['a', 'b', 'A', 'a b', 'a+b', 'a%20b', 'a%2Bb', 'a/b', '/a', 'a/', '../a', '..', '.', '...', './a', '/etc/passwd', '../../a', 'a\\b',
       '%', '%2F', 'a%2Fb', '%2e%2e', '%252F', 'a.lock', '.lock', 'a.b.lock', 'lock', 'a.lock.lock', 'a.lockx', 'https://op.example.org/',
       'https://op.example.org:8443/a?b=c&d#e', 'åäö', 'a\u030a', 'å', '日本', '😀', ' ', '  ', ' a', 'a ', '\t', '\n', 'a\nb', '\x00',
       'a\x00b', '~', '~a', '-', '-rf', '*', 'a*', '?', '[a]', '{a}', '{issuer}', '%s', '$HOME', '`a`', '__label__a', '__a', 'a__', '"',
       "'", ';', '|', '&', '=', 'tmp', 'con', '0', '00', 'None', 'key.json', '.hidden', '_', '\u2028', '\ufeff', '..a', 'a..', '.a.lock',
       '%2E', '%2Elock', 'a%2Elock', '%2E%2E']
key = st.one_of(st.sampled_from(ODD), gen.simple, gen.text, gen.ident).filter(
    lambda k: 0 < len(quote_plus(k, errors='replace')) <= 200)


@st.composite
def keys(draw, n=4):
    """A small pool, some of them look alike."""
    ks = []
    for _ in range(draw(st.integers(1, n))):
        if ks and draw(st.booleans()):
            k = draw(st.sampled_from(ks))
            ks.append(draw(st.sampled_from([k + '.lock', quote_plus(k), k + '/', k.upper(), k.lower(), k + ' ', ' ' + k, k + 'x', k[:-1],
                                            './' + k, k.replace('/', '%2F'), k.replace(' ', '+'), k * 2, k + '\n', '.' + k, k + '.'])))
        else:
            ks.append(draw(key))
    return [k for k in gen.uniq(ks) if 0 < len(quote_plus(k)) <= 200] or ['a']


# PassThru: text without surrounding white space (see the known finding); JSON: any JSON value
passthru = st.one_of(gen.text0, st.sampled_from(['', 'a\nb', 'a\r\nb', 'a\rb', '\x00', '{}', '\ufeffx', 'x' * 5000, 'å\u2028ö'])).map(
    lambda s: s.strip())
json_value = st.one_of(gen.json_value, gen.json_object, gen.text0, st.sampled_from(
    [None, '', 0, False, 1, True, 1.0, [], {}, ' ', 'a\r\nb', {'a': [1, {'b': None}]}, 'x' * 5000, [' '], '"']))


# values that are equal without being the same
TWINS = [[1, True, 1.0], [0, False, 0.0], [-0.0, 0, 0.0], [[1], [True]], [{'a': 1}, {'a': True}, {'a': 1.0}], [[0, ''], [False, '']],
         [10 ** 16, 1e16], [{'a': [1]}, {'a': [1.0]}]]


def bad_value(conv):
    """Values the converter cannot write (sets are written as tuples in the cases)."""
    return st.sampled_from([5, None, b'x', '\ud800', 'abc\ud800', ['x'], True, {'a': 1}]) if conv == PASS else \
        st.sampled_from([b'x', ('set',), {'a': b'x'}, [1, ('set',)], {'a': {'b': ('set',)}}])


def literal(v):
    if v == ('set',):
        return {1}
    if isinstance(v, dict):
        return {k: literal(x) for k, x in v.items()}
    if isinstance(v, list):
        return [literal(x) for x in v]
    return v
