"""Personal claims (user info, ID Token, identity assurance claims) against a reference predicate: subject, birthdate
calendar, error text, null claims, types of the flags and of the update time."""
import copy
import datetime
import json
import re

from hypothesis import strategies as st

import gen
import msgs
import tok
import valid
import vf
from vf import Target, outcome

RULE = 'a case is non-trivial if at most one rule is broken; distinct by class, claims and way of construction'
ASSUMPTIONS = ['null claims are only decided for user info and identity assurance claims, not for ID Tokens',
               'the birthdate 0000 on its own and years before 1000 are not decided']
KEYS = ['oidc:OpenIDSchema', 'oidc:OpenIDSchema', 'oidc.identity_assurance:IdentityAssuranceClaims', 'oidc:IdToken']
D = datetime.date


def date_ok(s):
    """None: not decided."""
    if not re.fullmatch('[0-9]{4}(-[0-9][0-9]-[0-9][0-9])?', s) or s != s.strip():
        return False
    y = int(s[:4])
    if len(s) == 4:
        return True if y >= 1000 else None
    m, d = int(s[5:7]), int(s[8:10])
    leap = y == 0 or (y % 4 == 0 and (y % 100 != 0 or y % 400 == 0))
    days = [31, 29 if leap else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
    if not 1 <= m <= 12 or not 1 <= d <= days[m - 1]:
        return False
    return True if y == 0 or y >= 1000 else None


two = st.integers(0, 40).map(lambda i: '%02d' % i)
year = st.one_of(st.integers(1000, 9999), st.sampled_from([1000, 1900, 1999, 2000, 2001, 2004, 2023, 2024, 2100, 9999, 0, 0, 0])) \
    .map(lambda i: '%04d' % i)
real = st.dates(min_value=D(1000, 1, 1)).map(str)
zero = st.dates(min_value=D(2000, 1, 1), max_value=D(2000, 12, 31)).map(lambda d: '0000' + str(d)[4:])
numbers = st.tuples(year, st.one_of(st.integers(1, 12), st.integers(0, 13)).map(lambda i: '%02d' % i),
                    st.one_of(st.integers(27, 32), st.integers(0, 32)).map(lambda i: '%02d' % i)).map('-'.join)
odd = st.one_of(
    st.sampled_from(['2000-1-2', '2000-01-2', '2000-1-02', '00-01-02', '2000-01', '2000/01/02', '20000102', '02-01-2000', '1.1.2000',
                     '2000-01-02T00:00:00Z', '0000-00-00', '0000-13-01', '0000-1-1', '--12-31', '2000-', '-2000', '+2000', '200',
                     '20000', '2000.', 'year', '2000-01-02-03', '2000-12', '0000-12', '2000-001', '٢٠٠٠', '２０００-01-01',
                     '2000-٠١-٠١', '0000-02-30', '1900-02-29', '2000-02-29', '0000-02-29', '2001-02-29', '2000-W01-1', 'None']),
    st.tuples(st.one_of(real, zero, year), st.sampled_from([' %s', '%s ', '%s\n', '\t%s', '%sZ', '%s-', '-%s', '%s0', '0%s', '"%s"',
                                                           '%s\0', '%s%s'])).map(
        lambda t: t[1].replace('%s', t[0])),
    st.tuples(real, st.sampled_from(['/', '.', ' ', '', '_', '\u2010', ':'])).map(lambda t: t[0].replace('-', t[1])),
    gen.text)
birthdate = st.one_of(real, zero, year, numbers, numbers, odd)
RULES = ['sub', 'birthdate', 'error description', 'null', 'flag', 'updated_at']
NOTBOOL = ['true', 'false', 'True', '1', '0', 'yes', 0, 1, 2, 1.0, 0.0, {'a': 1}, ['x'], [True]]
NOTINT = ['x', 'true', '1.5', '12.0', '1e3', '0x10', '1 2', True, False, {'a': 1}, [True], 'None']
DIRECT = ['name', 'given_name', 'nickname', 'email', 'gender', 'locale', 'website', 'phone_number', 'zoneinfo', 'picture',
          'email_verified', 'phone_number_verified', 'updated_at', 'address', 'birthdate']


@st.composite
def case(draw):
    key = draw(st.sampled_from(KEYS))
    spec = msgs.SPECS[key]
    names = [n for n in spec.params if n not in ('sub', 'birthdate', 'iss', 'aud', 'exp', 'iat', 'azp')]
    p = {'sub': draw(gen.text)}
    if key == 'oidc:IdToken':
        p.update(iss=valid.ISS, aud=[valid.CLIENT], exp=valid.NOW + draw(st.integers(0, 99)), iat=valid.NOW - draw(st.integers(0, 99)))
    some = draw(st.lists(st.sampled_from(names), max_size=4, unique=True))
    for n in draw(st.lists(st.sampled_from(DIRECT[:-1]), max_size=2, unique=True)):
        if n not in some:
            some.append(n)
    for n in some:
        p[n] = draw(valid.err_text if n == 'error_description' else msgs.value_for(spec.params[n]))
    broken = draw(st.sampled_from([0, 0, 1, 1, 1, 1, 2]))
    broken = set(draw(st.permutations(RULES))[:broken])
    if key == 'oidc:IdToken':
        broken.discard('null')
    if draw(st.integers(0, 2)) or 'birthdate' in broken:
        b = draw(birthdate.filter(lambda s: date_ok(s) is (False if 'birthdate' in broken else True)))
        p['birthdate'] = b
    if 'sub' in broken:
        del p['sub']
    if 'error description' in broken:
        t = draw(valid.err_text)
        i = draw(st.integers(0, len(t)))
        p['error_description'] = t[:i] + draw(st.sampled_from('"\\\x7f\x80\n\t\0é\x1f')) + t[i:]
    if 'flag' in broken:
        p[draw(st.sampled_from(['email_verified', 'phone_number_verified']))] = draw(st.sampled_from(NOTBOOL))
    if 'updated_at' in broken:
        p['updated_at'] = draw(st.sampled_from(NOTINT))
    p.update(draw(valid.extras(key, 2)))
    if 'null' in broken:
        free = [n for n in DIRECT if n not in p or n in ('name', 'locale', 'address')]
        if 'birthdate' in broken:
            free = [n for n in free if n != 'birthdate']
        if draw(st.integers(0, 3)) == 0:
            free = ['x_claim', 'http://claims.example/a']
        p[draw(st.sampled_from(free))] = None
    p = {k: p[k] for k in draw(st.permutations(list(p)))}
    return key, p, sorted(broken), draw(st.sampled_from(['dict', 'json', 'kwargs', 'setitem', 'jwt']))


def construct(key, p, how):
    cls = msgs.cls_of(key)
    p = copy.deepcopy(p)
    if how == 'json':
        return cls().from_json(json.dumps(p))
    if how == 'kwargs':
        return cls(**p)
    if how == 'setitem':
        m = cls()
        for k, v in p.items():
            m[k] = v
        return m
    if how == 'jwt':
        return cls().from_jwt(tok.sign(p, None, 'none'), keyjar=tok.jar({}), sigalg='none')
    return msgs.build(key, p)


def check(c, rec):
    key, p, broken, how = c
    if how == 'jwt' and None in p.values():
        how = 'dict'
    vf.clock.set(valid.NOW, 1)
    try:
        o = outcome(construct, key, p, how)
        built = o[0] == 'ok'
        m = o[1]
        if built:
            before = msgs.plain(m)
            o = outcome(m.verify, iss=valid.ISS, client_id=valid.CLIENT) if key == 'oidc:IdToken' else outcome(m.verify)
    finally:
        vf.clock.real()
    if broken:
        rec.check(o[0] == 'exc' or not o[1], '%s accepted although broken: %s', key, broken)
    else:
        rec.check(built, '%s cannot be built: %r', key, o[1])
        rec.check(o == ('ok', True), '%s refused: %r', key, o[1])
    if broken == ['null'] and not (how == 'setitem' and not built):
        rec.check(built and o == ('ok', False), 'null claim: verification gave %r', o)
    if broken and set(broken) <= {'flag', 'updated_at'}:
        rec.check(not built, '%s holds %r', key, p)
    if built:
        rec.check(msgs.same(msgs.plain(m), before), 'verification changed the claims to %r', msgs.plain(m))
        known = msgs.SPECS[key].params
        if not broken:
            got, want = [{k: v for k, v in d.items() if k in known} for d in (msgs.plain(m), p)]
            rec.check(msgs.same(got, want), 'holds %r, given %r', got, want)
    for b in broken or ['accepted']:
        rec.cls(('only ' if len(broken) == 1 else '') + b)
    if 'birthdate' in p and p['birthdate']:
        rec.cls('birthdate ' + ('bad' if 'birthdate' in broken else 'year' if len(p['birthdate']) == 4 else
                                'no year' if p['birthdate'].startswith('0000') else 'full'))
    if len(broken) < 2:
        rec.nontrivial()


def dates(y, rec):
    """Every month and day number of a year."""
    cls = msgs.cls_of('oidc:OpenIDSchema')
    for m in range(0, 14):
        for d in range(0, 33):
            s = '%04d-%02d-%02d' % (y, m, d)
            o = outcome(cls(sub='s', birthdate=s).verify)
            want = date_ok(s)
            rec.check((o == ('ok', True)) == want and (want or o[0] == 'exc'), 'birthdate %s: %r', s, o)
    o = outcome(cls(sub='s', birthdate='%04d' % y).verify)
    if y >= 1000:
        rec.check(o == ('ok', True), 'birthdate %04d: %r', y, o)
    rec.nontrivial()


TARGETS = [Target('claims', case(), check, quick=4000, thorough=150000),
           Target('dates', None, dates, examples=[0, 1000, 1582, 1700, 1752, 1800, 1899, 1900, 1904, 1968, 1970, 1999, 2000, 2001,
                                                  2004, 2023, 2024, 2100, 2400, 9999])]
