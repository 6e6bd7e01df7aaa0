"""Relative times, points and comparisons at a controlled clock (a preloaded shim) against exact arithmetic on the epoch."""
import calendar
import datetime
import time

from hypothesis import strategies as st

import vf
from vf import Target, outcome

RULE = 'a case is non-trivial if the offset is not zero or two points are compared that differ by at most a minute; distinct by inputs'
ASSUMPTIONS = ['clock readings 1970 to 2200 in whole microseconds', 'no leap seconds', 'points are text in the form the module writes, '
               'whole epoch seconds from 1, or UTC time structures', 'a missing point (None, empty text) is never a limit']
FMT = '%Y-%m-%dT%H:%M:%SZ'
EPOCH = datetime.datetime(1970, 1, 1)
TOP = calendar.timegm((2200, 1, 1, 0, 0, 0))
second = st.one_of(st.integers(1, TOP), st.sampled_from([1, 59, 60, 86399, 86400, 951782399, 951782400, 951868800, 1709164800, 1711846799,
                                                        1711846800, 1711850400, 1729990800, 2147483647, 2147483648, 4107542400, 4294967296]),
                   st.integers(1700000000, 1800000000), st.integers(1970, 2199).map(lambda y: calendar.timegm((y, 12, 31, 23, 59, 59))))
usec = st.one_of(st.sampled_from([0, 1, 499999, 500000, 999999]), st.integers(0, 999999))
ZONES = ['UTC0', 'CET-1CEST,M3.5.0,M10.5.0/3', 'EST5EDT,M3.2.0,M11.1.0', 'NZST-12NZDT,M9.5.0,M4.1.0/3', 'XXX-14', 'YYY12',
         'NST3:30NDT,M3.2.0,M11.1.0']
UNITS = ['days', 'seconds', 'microseconds', 'milliseconds', 'minutes', 'hours', 'weeks']
FORMATS = [None, '%Y-%m-%dT%H:%M:%SZ', '%Y%m%d%H%M%S', '%d/%m/%Y %H.%M.%S', '%Y-%m-%dT%H:%M:%S+0000', '%a, %d %b %Y %H:%M:%S GMT', '%H:%M']
amount = st.one_of(st.integers(0, 120), st.integers(-30, 100000), st.sampled_from([0, 1, -1, 23, 24, 25, 59, 60, 61, 365, 999, 1000, 3600, 86400]),
                   st.sampled_from([0.5, 1.25, 0.001, 2.75]))


@st.composite
def offsets(draw):
    units = draw(st.lists(st.sampled_from(UNITS), max_size=3, unique=True))
    off = {u: draw(amount) for u in units}
    while abs(datetime.timedelta(**off)) > datetime.timedelta(days=700000):      # no year before 1 or after 9999
        off.popitem()
    return draw(second), draw(usec), off, draw(st.booleans()), draw(st.sampled_from(FORMATS)), \
        draw(st.sampled_from(ZONES))


def relative(c, rec):
    from oidcmsg import time_util as t
    sec, us, off, positional, fmt, zone = c
    delta = datetime.timedelta(days=off.get('days', 0), seconds=off.get('seconds', 0), microseconds=off.get('microseconds', 0),
                               milliseconds=off.get('milliseconds', 0), minutes=off.get('minutes', 0), hours=off.get('hours', 0),
                               weeks=off.get('weeks', 0))
    now = EPOCH + datetime.timedelta(seconds=sec, microseconds=us)
    args, kw = ([off.get(u, 0) for u in UNITS], {}) if positional else ([], off)
    fkw = {} if fmt is None else {'time_format': fmt}
    try:
        vf.set_tz(zone)
        vf.clock.set(sec, us * 1000)
        future, past = t.time_in_a_while(*args, **kw), t.time_a_while_ago(*args, **kw)
        later, ago = t.in_a_while(*args, **dict(kw, **fkw)), t.a_while_ago(*args, **dict(kw, **fkw))
        plain_later, default_later = t.in_a_while(*args, **kw), t.in_a_while(*args, **dict(kw, time_format=''))
        epoch = t.epoch_in_a_while(*args, **kw)
        this, sans, sans_utc = t.instant(), t.time_sans_frac(), t.utc_time_sans_frac()
        formatted = t.instant(fmt) if fmt else this
        parsed = t.str_to_time(plain_later)
        if fmt and fmt != '%H:%M':
            custom = t.str_to_time(later, fmt)
        shifted = t.shift_time(now, off.get('seconds', 0))
        answers = t.before(plain_later), t.after(plain_later), t.later_than(plain_later, this)
    finally:
        vf.clock.real()
        vf.set_tz('UTC0')
    rec.eq(future, now + delta, 'time in a while')
    rec.eq(past, now - delta, 'time a while ago')
    rec.eq(later, (now + delta).strftime(fmt or FMT), 'in a while')
    rec.eq(ago, (now - delta).strftime(fmt or FMT), 'a while ago')
    rec.eq(default_later, plain_later, 'in a while')
    rec.eq(plain_later, (now + delta).strftime(FMT), 'in a while')
    whole = int((now + delta - EPOCH) // datetime.timedelta(seconds=1))
    if 0 <= whole < 1 << 33:     # beyond that microseconds are rounded
        rec.eq(epoch, whole, 'epoch in a while')
        rec.check(type(epoch) is int, 'epoch in a while is %r', epoch)
    rec.eq(this, now.strftime(FMT), 'instant')
    rec.eq(formatted, now.strftime(fmt or FMT), 'instant')
    rec.eq(sans, sec, 'time sans fraction')
    rec.eq(sans_utc, sec, 'UTC time sans fraction')
    rec.eq(calendar.timegm(parsed), whole, 'the text %r, parsed', plain_later)
    rec.eq(tuple(parsed), tuple(time.gmtime(whole)), 'the text %r, parsed', plain_later)
    if fmt and fmt != '%H:%M':
        rec.eq(calendar.timegm(custom), whole, 'the text %r in format %r, parsed', later, fmt)
    rec.eq(shifted, now + datetime.timedelta(seconds=off.get('seconds', 0)), 'shifted time')
    rec.eq(answers, (whole > sec, whole <= sec, whole >= sec), 'before, after, later than now of %r', plain_later)
    rec.cls('%d units' % len(off))
    if delta:
        rec.nontrivial()


# --- points and their order
def as_point(sec, form, frac=''):
    if form == 'text':
        return time.strftime(FMT, time.gmtime(sec))
    if form == 'fraction':
        return time.strftime('%Y-%m-%dT%H:%M:%S.', time.gmtime(sec)) + frac + 'Z'
    if form == 'struct':
        return time.gmtime(sec)
    return sec


FORMS = ['text', 'fraction', 'struct', 'int']


@st.composite
def points(draw):
    sec = draw(second)
    near = st.one_of(st.sampled_from([0, 0, 1, -1, 59, 60, -60, 3600, -3600, 86400, -86400]), st.integers(-100, 100),
                     st.integers(-10 ** 9, 10 ** 9))
    p = max(1, sec + draw(near))
    q = max(1, p + draw(near))
    fracs = st.sampled_from(['', '0', '5', '999999', '123456789', '000'])
    return sec, draw(usec), p, draw(st.sampled_from(FORMS)), draw(fracs), q, draw(st.sampled_from(FORMS)), draw(fracs), \
        draw(st.sampled_from(ZONES))


def order(c, rec):
    from oidcmsg import time_util as t
    sec, us, p, pform, pfrac, q, qform, qfrac, zone = c
    a, b = as_point(p, pform, pfrac), as_point(q, qform, qfrac)
    try:
        vf.set_tz(zone)
        vf.clock.set(sec, us * 1000)
        res = {n: getattr(t, n)(a) for n in ('before', 'after', 'not_before', 'not_on_or_after', 'valid')}
        late, early = t.later_than(a, b), t.later_than(b, a)
        if isinstance(a, str):
            rec.eq(calendar.timegm(t.str_to_time(a)), p, 'the text %r, parsed', a)
        none = [t.before(None), t.before(''), t.after(None), t.after('')]
    finally:
        vf.clock.real()
        vf.set_tz('UTC0')
    rec.eq(res, {'before': sec < p, 'after': sec >= p, 'not_before': sec >= p, 'not_on_or_after': sec < p, 'valid': sec < p},
           'at %d, the point %r', sec, a)
    rec.eq(late, p >= q, '%r later than %r', a, b)
    rec.eq(early, q >= p, '%r later than %r', b, a)
    rec.check(all(none), 'no point: %r', none)
    rec.cls('now %s point' % ('<' if sec < p else '=' if sec == p else '>'))
    rec.cls(pform + '/' + qform)
    if abs(sec - p) <= 60 or abs(p - q) <= 60:
        rec.nontrivial()


BAD = ['2000-13-01T00:00:00Z', '2000-02-30T00:00:00Z', '2001-02-29T00:00:00Z', '2000-01-01T24:00:00Z', '2000-01-01T00:60:00Z',
       '2000-01-01T00:00:00', '2000-01-01 00:00:00Z', '2000-01-01T00:00:00+01:00', '2000-01-01', 'x', ' ', '2000-01-01T00:00:00.5',
       '2000-01-01T00:00:00.5+01:00', '2000-01-01T00:00:00.xZ', '2000-01-01T00:00:00ZZ', 'T', '00-01-01T00:00:00Z', '2000-00-01T00:00:00Z',
       '2000-01-00T00:00:00Z', '2000-02-30T00:00:00.5Z', '2000-13-01T00:00:00.5Z', '2000-01-01T24:00:00.5Z', '-2000-01-01T00:00:00Z',
       '2000-01-01T00:00:00,5Z', '2000-01-01T00:00:00.5Z.5Z', '1', '946684800']


def refused(text, rec):
    from oidcmsg import time_util as t
    for fn in (t.str_to_time, t.before, t.after, lambda x: t.later_than(x, 5), lambda x: t.later_than(5, x)):
        o = outcome(fn, text)
        rec.check(o[0] == 'exc', '%r is not a point in time but gives %r', text, o[1])
    rec.nontrivial()


TARGETS = [Target('relative times', offsets(), relative, quick=6000, thorough=200000),
           Target('points', points(), order, quick=6000, thorough=200000),
           Target('not points', None, refused, examples=BAD)]
