"""Identity assurance timestamps: format and read back in many time zones, near daylight saving changes; the text is read by an
independent parser and its offset compared with the C library's."""
import calendar
import datetime
import json
import re
import time

from hypothesis import strategies as st

import gen
import msgs
import vf
from vf import Target, outcome

RULE = 'a case is non-trivial if the zone is not UTC; distinct by instant, zone and way of conversion'
ASSUMPTIONS = ['date-times without a zone that exist once']
NAMES = ['America/New_York', 'Asia/Kolkata', 'Pacific/Kiritimati', 'Europe/Stockholm', 'Pacific/Marquesas', 'Australia/Lord_Howe',
         'America/St_Johns', 'Europe/London', 'Asia/Kathmandu', 'Pacific/Apia', 'America/Havana', 'Africa/Casablanca',
         'Australia/Adelaide', 'America/Sao_Paulo']
POSIX = ['UTC', 'CET-1CEST,M3.5.0,M10.5.0/3', 'XXX3:30YYY,M10.1.0,M3.4.0', '<-12>12', '<+14>-14', 'AAA-5:45', 'EST5EDT']
END = 4102444800


def transitions():
    res = {}
    try:
        import zoneinfo
        for n in NAMES:
            z = zoneinfo.ZoneInfo(n)

            def off(t):
                return datetime.datetime.fromtimestamp(t, z).utcoffset()
            found, t = [], 86400
            while t < 2000000000:
                u = t + 14 * 86400
                if off(t) != off(u):
                    lo, hi = t, u
                    while hi - lo > 1:
                        mid = (lo + hi) // 2
                        lo, hi = (mid, hi) if off(mid) == off(lo) else (lo, mid)
                    found.append(hi)
                t = u
            res[n] = found
    except Exception:
        pass
    return res


TRANS = transitions()
instant = st.one_of(st.integers(0, END), st.integers(0, 10 ** 5), st.sampled_from([0, 1, 59, 60, 3599, 86399, 86400, 951782400,
                                                                                 1709164800, 2 ** 31 - 1, 2 ** 31, END]))


@st.composite
def zoned(draw):
    tz = draw(st.sampled_from(NAMES + POSIX))
    t = draw(instant)
    if TRANS.get(tz) and draw(st.booleans()):
        t = draw(st.sampled_from(TRANS[tz])) + draw(st.one_of(st.integers(-7300, 7300), st.integers(-2, 2)))
    elif draw(st.integers(0, 3)) == 0:      # near midnight
        t = max(0, t - t % 1800 + draw(st.integers(-2, 2)))
    return t, tz


def read(text):
    """Seconds since the epoch and offset, by hand."""
    g = re.fullmatch('([0-9]{4})-([0-9]{2})-([0-9]{2})T([0-9]{2}):([0-9]{2}):([0-9]{2})([+-])([0-9]{2}):?([0-9]{2})([0-9]{2})?', text)
    if not g:
        raise vf.Violation('not an ISO 8601 time: %r' % text)
    n = [int(x) for x in g.groups()[:6]]
    o = (int(g.group(8)) * 3600 + int(g.group(9)) * 60 + int(g.group(10) or 0)) * (-1 if g.group(7) == '-' else 1)
    return calendar.timegm(tuple(n) + (0, 0, 0)) - o, o


WAYS = ['int', 'float', 'quarters', 'now', 'naive', 'aware', 'aware other']


@st.composite
def stamp(draw):
    t, tz = draw(zoned())
    return t, tz, draw(st.sampled_from(WAYS)), draw(st.sampled_from([0, 330, -570, 60, 840, -720, 345, 1]))


def in_zone(fn):
    def run(c, rec):
        vf.set_tz(c[1])
        try:
            fn(c, rec)
        finally:
            vf.clock.real()
            vf.set_tz('UTC')
        if c[1] != 'UTC':
            rec.nontrivial()
    return run


def once(t):
    """The local wall clock reading at t occurs at t only."""
    lt = time.localtime(t)
    return all(time.localtime(t + d)[:6] != lt[:6] for d in (-7200, -3600, -1800, 1800, 3600, 7200, -86400, 86400, -3000, 3000))


@in_zone
def stamps(c, rec):
    from oidcmsg.oidc import identity_assurance as ida
    t, tz, way, shift = c
    v = {'int': t, 'float': float(t), 'quarters': t + 0.25 * (shift % 4)}.get(way)
    fmt, back = ida.to_iso8601_2004_time, ida.from_iso8601_2004_time
    if shift % 2:
        fmt, back = ida.to_iso8601_2004, ida.from_iso8601_2004
    off = time.localtime(t).tm_gmtoff
    if way == 'now':
        vf.clock.set(t, 999999000 if shift else 0)
        s = fmt()
        vf.clock.real()
    else:
        if way == 'naive':
            v = datetime.datetime(*time.localtime(t)[:6])
            if not once(t):
                rec.cls('ambiguous')
                return
        elif way == 'aware':
            v = datetime.datetime.fromtimestamp(t, datetime.timezone.utc)
            off = 0
        elif way == 'aware other':
            off = shift * 60
            v = datetime.datetime.fromtimestamp(t, datetime.timezone(datetime.timedelta(minutes=shift)))
        s = fmt(v)
    got, o = read(s)
    rec.check(got == t, '%r in %s formatted as %s, which is %d seconds off', v, tz, s, got - t)
    if way[:5] != 'aware':
        rec.check(o == off, '%r in %s formatted as %s, offset is %d', v, tz, s, off)
    rec.eq(back(s), t, 'reading %s in %s', s, tz)
    rec.eq(ida.time_stamp_deser(s), t, 'deserializing %s in %s', s, tz)
    rec.eq((ida.time_stamp_deser(t), ida.time_stamp_deser(t + 0.5)), (t, t + 0.5), 'deserializing what is a time already')
    vf.set_tz('Asia/Tokyo')
    rec.eq(back(s), t, 'reading %s in another zone', s)
    rec.cls(way)
    if TRANS.get(tz) and any(abs(t - x) < 7400 for x in TRANS[tz]):
        rec.cls('near a change')


@st.composite
def dated(draw):
    return draw(zoned()) + (draw(st.sampled_from(['int', 'float', 'now', 'naive', 'text', 'aware'])),)


@in_zone
def dates(c, rec):
    from oidcmsg.oidc import identity_assurance as ida
    t, tz, way = c
    want = time.strftime('%Y-%m-%d', time.localtime(t))
    if way == 'now':
        vf.clock.set(t, 500000000)
        s = ida.to_iso8601_2004_date()
        vf.clock.real()
    elif way == 'naive':
        s = ida.to_iso8601_2004_date(datetime.datetime(*time.localtime(t)[:6]))
    elif way == 'aware':
        # the date it has where it was made, whatever the local zone is
        for m in (0, 60, -60, 330, -570, 840, -720):
            v = datetime.datetime.fromtimestamp(t, datetime.timezone(datetime.timedelta(minutes=m)))
            rec.eq(ida.to_iso8601_2004_date(v), '%04d-%02d-%02d' % (v.year, v.month, v.day), 'date of %s in %s', v, tz)
        s = ida.to_iso8601_2004_date(t)
    elif way == 'text':
        s = ida.date_ser(str(t))
    else:
        s = ida.to_iso8601_2004_date(t if way == 'int' else float(t))
        rec.eq(ida.date_ser(t if way == 'int' else t + 0.5), want, 'date of %d in %s', t, tz)
    rec.eq(s, want, 'date of %d in %s (%s)', t, tz, way)
    if tz != 'Pacific/Apia':                # skipped 2011-12-30 altogether
        d = ida.from_iso8601_2004_date(s)
        rec.eq(time.strftime('%Y-%m-%d', time.localtime(d)), want, 'reading date %s in %s', s, tz)
        rec.check(d <= t < d + 93601, 'date %s in %s read as %r', s, tz, d)
        rec.eq(ida.to_iso8601_2004_date(d), want, 'date %s in %s again', s, tz)
        rec.eq(ida.date_deser(s), d, 'deserializing date %s', s)
        rec.eq((ida.date_deser(t), ida.date_deser(t + 0.5), ida.date_deser(d)), (t, t + 0.5, d), 'deserializing what is a time already')
    rec.cls(way)


HOLDERS = {'oidc.identity_assurance:QES': ('created_at', {'issuer': 'i', 'serial_number': '1'}),
           'oidc.identity_assurance:UtilityBill': ('date', {'provider': {'name': 'n'}}),
           'oidc.identity_assurance:VerificationElement': ('time', {'trust_framework': 'f'}),
           'oidc.identity_assurance:IdDocument': ('time', {'method': 'm', 'verifier': {'organization': 'o', 'txn': 't'}}),
           'oidc.identity_assurance:Document': ('date_of_issuance', {
               'type': 't', 'number': '1', 'issuer': {'name': 'n', 'country': 'c'}, 'date_of_expiry': '2030-01-01T00:00:00+0000'})}


@st.composite
def held(draw):
    t, tz = draw(zoned().filter(lambda z: z[0] > 0))
    return t, tz, draw(st.sampled_from(sorted(HOLDERS))), draw(st.sampled_from(['int', 'text', 'float', 'iso', 'iso'])), \
        draw(st.one_of(st.sampled_from([
            '2012-04-23T18:25Z', '2012-04-23T18:25:43.511+01', '2012-04-23', '2012-04-23T18:25:43+0100', '2012-04-23T18:25:43+01:00',
            '20120423T182543Z', '2012-W17-1', '2012-04-23T18:25:43', '2012-04', '1985-102T10:15:30+04', '2012-04-23T24:00:00Z']),
            msgs.ts_text)), draw(st.sampled_from(['kwargs', 'dict', 'json', 'setitem']))


@in_zone
def messages(c, rec):
    t, tz, key, kind, text, how = c
    name, rest = HOLDERS[key]
    cls = msgs.cls_of(key)
    v = {'int': t, 'text': str(t), 'float': t + 0.5, 'iso': text}[kind]
    p = dict(rest, **{name: v})
    if how == 'kwargs':
        m = cls(**p)
    elif how == 'json':
        m = cls().from_json(json.dumps(p))
    elif how == 'setitem':
        m = cls(**rest)
        m[name] = v
    else:
        m = msgs.build(key, p)
    if kind == 'iso':
        for got in (m[name], m.to_dict()[name], json.loads(m.to_json())[name], cls().from_json(m.to_json())[name],
                    cls().from_dict(m.to_dict())[name]):
            rec.eq(got, v, '%s %s', key, name)
    else:
        for s in (m.to_dict()[name], json.loads(m.to_json())[name], cls().from_json(m.to_json()).to_dict()[name],
                  cls().from_dict(m.to_dict())[name]):
            # the value may have been turned into text already
            got = int(float(s)) if re.fullmatch('[0-9.]+', str(s)) else read(s)[0]
            rec.eq(got, t, '%s %s %r in %s came out as %r', key, name, v, tz, s)
            rec.check(not re.fullmatch('[0-9.]+', str(s)), '%s %s %r is written as %r', key, name, v, s)
    o = outcome(m.verify)
    rec.check(o == ('ok', True), '%s refused: %r', key, o)
    rec.cls(kind)


TARGETS = [Target('time stamps', stamp(), stamps, quick=5000, thorough=200000),
           Target('dates', dated(), dates, quick=3000, thorough=100000),
           Target('messages', held(), messages, quick=1500, thorough=50000)]
assert gen is not None
