"""Durations of the XML Schema grammar and mutations of them against an independent parser; addition against exact date
arithmetic after XML Schema part 2, appendix E, over start times and process time zones."""
import calendar
import datetime
import re
import time

from hypothesis import strategies as st

import gen
import vf
from vf import Target, outcome

RULE = 'a case is non-trivial if the duration has at least two components (or is malformed) and, for additions, a field carries'
ASSUMPTIONS = ['years 1970 to 2200', 'fractions of seconds are dropped from the result of an addition (a time structure has none)',
               'a negative duration is not added (the suite expects None)']
GRAMMAR = re.compile(r'(-)?P(?=.)(?:([0-9]+)Y)?(?:([0-9]+)M)?(?:([0-9]+)D)?'
                     r'(?:T(?=.)(?:([0-9]+)H)?(?:([0-9]+)M)?(?:([0-9]+(?:\.[0-9]+)?)S)?)?')
FIELDS = ['tm_year', 'tm_mon', 'tm_mday', 'tm_hour', 'tm_min', 'tm_sec']


def model_parse(text):
    m = GRAMMAR.fullmatch(text)
    if not m or text.endswith('T'):
        return None
    vals = [(float(x) if '.' in x else int(x)) if x else 0 for x in m.groups()[1:]]
    return '-' if m.group(1) else '+', dict(zip(FIELDS, vals))


number = st.one_of(st.integers(0, 99), st.sampled_from([0, 1, 2, 9, 10, 11, 12, 13, 23, 24, 25, 28, 29, 30, 31, 32, 59, 60, 61, 119, 365, 3600,
                                                       86400]), st.integers(0, 10 ** 6), st.integers(0, 10 ** 20)).map(str)
number = st.one_of(number, number, number.map(lambda s: '00' + s))
secs = st.one_of(number, st.tuples(number, st.integers(0, 999999)).map(lambda t: '%s.%06d' % t), number.map(lambda s: s + '.0'))


@st.composite
def duration(draw, num=number, sec=secs, sign=True):
    present = draw(st.lists(st.booleans(), min_size=6, max_size=6).filter(any))
    txt = ('-' if sign and draw(st.integers(0, 3)) == 0 else '') + 'P'
    for i, (p, c) in enumerate(zip(present, 'YMDHMS')):
        if i == 3 and any(present[3:]):
            txt += 'T'
        if p:
            txt += draw(sec if c == 'S' else num) + c
    return txt


JUNK = ['+', '-', ' ', '.', 'T', 'P', 'Y', 'M', 'D', 'H', 'S', 'W', '0', '5', 'x', '_', ',', 'e', '\n', '٣', '１', 'inf', 'nan', '1e3', '1_0', '2W',
        '1S', '1Z', '1M', '1D']


@st.composite
def mutated(draw):
    txt = draw(duration())
    for _ in range(draw(st.integers(1, 2))):
        i = draw(st.integers(0, len(txt)))
        how = draw(st.integers(0, 5))
        if how == 0:
            txt = txt[:i] + draw(st.sampled_from(JUNK)) + txt[i:]
        elif how == 1:
            txt = txt[:i] + txt[i + 1:]
        elif how == 2:
            txt = txt + draw(st.sampled_from(JUNK))
        elif how == 3 and len(txt) > 1:
            i = min(i, len(txt) - 2)
            txt = txt[:i] + txt[i + 1] + txt[i] + txt[i + 2:]
        elif how == 4:
            txt = txt[:i] + draw(st.sampled_from(JUNK)) + txt[i + 1:]
        else:
            txt = txt.lower() if draw(st.booleans()) else txt + txt[1:]
    return txt


BAD = ['', 'P', '-', '-P', 'T', 'PT', 'P1', '1Y', 'P1YT', 'P1Y1Y', 'P1D1Y', 'P1M1Y', 'PT1S1M', 'PT1H1Y', 'PT1H2H', 'PT5', 'PT1H5', 'PT1S ',
       ' PT1S', 'PT1SX', '+P1D', '--P1D', 'P-1D', 'PT-1S', 'PT+1S', 'P+1D', 'P1.5D', 'PT1.5H', 'PT1.S', 'PT.5S', 'PT.S', 'PTS', 'PH', 'P1H', 'P1S',
       'PT1D', 'PT1Y', 'P1W', 'p1d', 'P1d', 'P1_0D', 'P 1D', 'P1 D', 'PTinfS', 'PTnanS', 'PT1e3S', 'PT1_0S', 'PT1,5S', 'P１D', 'P٣D', 'PT1.2.3S',
       'P1DT1H\n', 'P1YT1M1H', 'P1Y2', 'P1D2', 'P0x1D', 'PT1S1S', 'P1DD', 'PT1HM', 'P1DT1S2', 'P1YT2H3D']


def parse(text, rec):
    from oidcmsg.time_util import parse_duration
    want = model_parse(text)
    o = outcome(parse_duration, text)
    if want is None:
        rec.check(o[0] == 'exc', '%r is not a duration but parses as %r', text, o[1])
        rec.cls('malformed')
        rec.nontrivial()
        return
    rec.check(o[0] == 'ok', '%r is refused: %r', text, o[1])
    sign, dic = o[1]
    rec.check((sign, {k: dic[k] for k in FIELDS}) == want, '%r parses as %r %r, expected %r', text, sign, dic, want)
    n = len([v for v in want[1].values() if v])
    rec.cls('%s%d components' % (want[0], n))
    if n > 1:
        rec.nontrivial()


# --- addition
def xsd_add(start, dur, fields):
    """XML Schema 1.0 part 2, appendix E; start is (y, mo, d, h, mi, s); None when out of range"""
    temp = start[1] + dur['tm_mon']
    month = (temp - 1) % 12 + 1
    year = start[0] + dur['tm_year'] + (temp - 1) // 12
    if not 1 <= year <= 2300:
        return None
    last = calendar.monthrange(year, month)[1]
    day = min(start[2], last)
    days = fields(dur['tm_mday'], last)
    whole = datetime.datetime(year, month, day, *start[3:])
    return whole + datetime.timedelta(days=days, hours=dur['tm_hour'], minutes=dur['tm_min'], seconds=int(dur['tm_sec']))


def right(days, last):
    return days


def pinned(days, last):         # known findings, see there
    return min(max(days, 1), last)


small = st.one_of(st.integers(0, 30), st.sampled_from([0, 1, 11, 12, 13, 23, 24, 25, 31, 32, 59, 60, 61, 100, 1000])).map(str)
few_days = st.one_of(st.integers(1, 28), st.sampled_from([0, 29, 30, 31, 32, 60, 366]))
ZONES = ['UTC0', 'CET-1CEST,M3.5.0,M10.5.0/3', 'EST5EDT,M3.2.0,M11.1.0', 'LHST-10:30LHDT-11,M10.1.0,M4.1.0', 'NZST-12NZDT,M9.5.0,M4.1.0/3',
         'XXX-14', 'YYY12', 'NST3:30NDT,M3.2.0,M11.1.0']


@st.composite
def addition(draw):
    last_days = draw(st.booleans())
    y = draw(st.one_of(st.integers(1970, 2100), st.sampled_from([1999, 2000, 2004, 2023, 2024, 2099, 2100])))
    m = draw(st.integers(1, 12))
    top = calendar.monthrange(y, m)[1]
    start = (y, m, draw(st.integers(26, top) if last_days else st.integers(1, top)),
             draw(st.one_of(st.integers(0, 23), st.sampled_from([0, 1, 2, 3, 23]))),
             draw(st.one_of(st.integers(0, 59), st.sampled_from([0, 30, 59]))), draw(st.one_of(st.integers(0, 59), st.sampled_from([0, 59]))))
    txt = 'P'
    for c, s in (('Y', st.integers(0, 30).map(str)), ('M', small)):
        if draw(st.booleans()):
            txt += draw(s) + c
    if draw(st.integers(0, 5)):
        txt += str(draw(few_days)) + 'D'
    time_part = ''
    for c, s in (('H', small), ('M', small), ('S', st.one_of(small, small.map(lambda x: x + '.5'), small.map(lambda x: x + '.999')))):
        if draw(st.booleans()):
            time_part += draw(s) + c
    if time_part:
        txt += 'T' + time_part
    if txt == 'P':
        txt = 'P1D'
    if draw(st.integers(0, 15)) == 0:
        txt = '-' + txt
    return start, txt, draw(st.sampled_from(ZONES))


def addition_at_gap():
    # walks over the hours where clocks change
    return st.tuples(st.sampled_from([(2024, 3, 30), (2024, 3, 9), (2024, 10, 26), (2024, 11, 2), (2024, 10, 5), (2024, 4, 6), (2024, 9, 28)]),
                     st.integers(0, 23), st.integers(0, 59), st.sampled_from(['P1D', 'P1DT1H', 'P1DT30M', 'P1DT2H', 'P1M1D', 'P7D', 'P1Y1D']),
                     st.sampled_from(ZONES)).map(lambda t: (t[0] + (t[1], t[2], 0), t[3], t[4]))


def add(c, rec):
    from oidcmsg.time_util import add_duration
    start, txt, zone = c
    tid = time.gmtime(calendar.timegm(start + (0, 0, 0)))
    sign, dur = model_parse(txt)
    try:
        vf.set_tz(zone)
        o = outcome(add_duration, tid, txt)
    finally:
        vf.set_tz('UTC0')
    if sign == '-':
        rec.check(o[0] == 'exc' or o[1] is None, 'adding %s gives %r', txt, o[1])
        return
    want = xsd_add(start, dur, right)
    assert want is not None
    rec.check(o[0] == 'ok', '%r + %s in %s: %r', start, txt, zone, o[1])
    got = tuple(o[1])
    ok = got == tuple(want.timetuple())[:8] + (0,)
    if not ok and not 1 <= dur['tm_mday'] <= 28:
        quirk = xsd_add(start, dur, pinned)
        ok = got == tuple(quirk.timetuple())[:8] + (0,)
        rec.cls('as the known findings have it')
    rec.check(ok, '%r + %s in %s gives %r, expected %r', start, txt, zone, got, want)
    carries = want.day != start[2] + dur['tm_mday'] or want.hour != start[3] + dur['tm_hour'] or want.second != start[5] + int(dur['tm_sec'])
    if carries and len([v for v in dur.values() if v]) > 1:
        rec.nontrivial()
    rec.cls('days %s' % ('1-28' if 1 <= dur['tm_mday'] <= 28 else '0' if not dur['tm_mday'] else '29-'))


def tid(text):
    return time.strptime(text, '%Y-%m-%dT%H:%M:%SZ')


def no_days():
    from oidcmsg.time_util import add_duration
    t = add_duration(tid('2000-01-12T00:00:00Z'), 'PT33H')
    return '2000-01-12T00:00:00Z + PT33H gives %s' % time.strftime('%Y-%m-%dT%H:%M:%SZ', t) if t.tm_mday != 13 else None


def many_days():
    from oidcmsg.time_util import add_duration
    t = add_duration(tid('2000-01-12T00:00:00Z'), 'P32D')
    return '2000-01-12T00:00:00Z + P32D gives %s' % time.strftime('%Y-%m-%dT%H:%M:%SZ', t) if t.tm_mday != 13 else None


KNOWN = {'no-days': no_days, 'many-days': many_days}
TARGETS = [Target('durations', duration(), parse, quick=4000, thorough=200000),
           Target('mutations', st.one_of(mutated(), mutated(), gen.text), parse, quick=4000, thorough=200000, examples=BAD),
           Target('additions', addition(), add, quick=5000, thorough=200000),
           Target('clock changes', addition_at_gap(), add, quick=1500, thorough=20000)]
