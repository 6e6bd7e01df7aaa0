"""Input generators shared by the checks.  Every value they produce is a Python literal."""
from hypothesis import strategies as st

import vf

MINED_STR, MINED_INT = vf.mine()
_SIZES = sorted({n + d for n in MINED_INT for d in (-1, 0, 1) if 0 <= n + d <= 4200} |
                {0, 1, 2, 3, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 512, 1024})
ALNUM = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789'
TRICKY = ' &=+%#?/\\"\'<>;:,.@!*()[]{}|~^`$-_\t\n\r\x00\x7f\x80\xa0\xe5\u0142\u20ac\u2028\u65e5\U0001f600'
WORDS = ['openid', 'code', 'id_token', 'token', 'none', 'client_id', 'https://example.com/cb?a=b&c=d',
         'https://op.example.org', 'null', 'true', 'True', 'false', '0', '1', '-1', '1.0', '{}', '[]', '""',
         '{"a": 1}', 'a b', ' a', 'a ', 'a  b', 'a+b', 'a%20b', '%2B', 'a&b=c', '#frag', '?q', 'sub#sv', '*',
         'åäö', 'ß', 'İ', '日本語', '😀', 'e\u0301', '\ufeffx', 'None']


def _chars(s):
    return st.text(alphabet=s, min_size=1, max_size=12)


def sized(chars='x'):
    """Texts whose length sits on or next to a literal of the code."""
    return st.tuples(st.sampled_from(_SIZES), st.sampled_from(chars)).map(lambda t: t[1] * t[0]) \
        .filter(lambda s: len(s) > 0)


# how many there may be of something: on or next to the literals of the code, powers of two, round numbers
count = st.one_of(st.integers(5, 40), st.sampled_from([n for n in _SIZES if 5 <= n <= 330] + [50, 51, 99, 100, 101, 150, 200, 201, 250]))

unicode_text = st.text(alphabet=st.characters(blacklist_categories=('Cs',)), min_size=1, max_size=10)

_mined = st.sampled_from(MINED_STR) if MINED_STR else st.just('x')
# a literal of the code with something around it
_mined_mix = st.tuples(st.sampled_from(['', '', ' ', 'x', '-', '/', '#']), _mined,
                       st.sampled_from(['', 'x', ' ', '/', '1', '#sv'])).map(''.join)

text = st.one_of(_chars(ALNUM), _chars(ALNUM + TRICKY), unicode_text, st.sampled_from(WORDS), _mined,
                 _mined_mix, sized('xé '))
text0 = st.one_of(st.just(''), text)
simple = st.text(alphabet=ALNUM, min_size=1, max_size=8)
# no white space: an item of a space separated list
token = st.one_of(simple, _chars(ALNUM + TRICKY), unicode_text, st.sampled_from(WORDS), _mined).map(
    lambda s: s.replace(' ', '_')).filter(lambda s: s != '')
ident = st.one_of(simple, _mined, st.sampled_from(['a', 'b', 'foo', 'x-y', 'urn:x:y', 'https://e.org/c', 'lang',
                                                   'iat ', 'Scope', 'scope ', 'åäö', '0', '*', '__verified_x']),
                  _chars(ALNUM + '-_.:'))
_NUMS = sorted(set(MINED_INT) | {n + d for n in MINED_INT for d in (-1, 1)} |
               {0, 1, -1, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 53, 2 ** 63, 10 ** 20, 1500000000})
integer = st.one_of(st.integers(-5, 100), st.integers(), st.sampled_from(_NUMS))
posint = st.one_of(st.integers(1, 100), st.integers(1, 2 ** 40),
                   st.sampled_from([n for n in _NUMS if n > 0]))
fl = st.floats(allow_nan=False, allow_infinity=False)
scalar = st.one_of(text0, integer, st.booleans(), st.none(), fl)
json_value = st.recursive(scalar, lambda c: st.one_of(
    st.lists(c, max_size=3), st.dictionaries(text0, c, max_size=3)), max_leaves=6)
json_object = st.dictionaries(st.one_of(ident, text0), json_value, max_size=4)
timestamp = st.one_of(st.integers(0, 4102444800), st.sampled_from([0, 1, 1500000000, 1700000000, 2 ** 31 - 1,
                                                                   2 ** 31]))


def uniq(xs):
    seen, res = set(), []
    for x in xs:
        if x not in seen:
            seen.add(x)
            res.append(x)
    return res


def pairs(keys, vals, **kw):
    """A dictionary as a strategy, insertion ordered."""
    return st.dictionaries(keys, vals, **kw)
