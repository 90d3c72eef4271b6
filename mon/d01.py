"""D01 calendar: every form of a date denotes the same day (oracle: java.time)"""

import lib
from lib import Family
from java.time import LocalDate, DateTimeException
from java.time.temporal import IsoFields, ChronoUnit
from java.util import GregorianCalendar, Calendar, TimeZone
import java.lang
import pyslet.iso8601 as iso
from pyslet.iso8601 import Date, Truncation, Precision, DateTimeError

PROPERTY = 'D01'
EPOCH = LocalDate.of(1, 1, 1).toEpochDay()
MAXABS = LocalDate.of(9999, 12, 31).toEpochDay() - EPOCH + 1


def ld(absday):
    return LocalDate.ofEpochDay(absday - 1 + EPOCH)


def fields(d):
    """reference fields of a LocalDate"""
    y = d.getYear()
    wy = d.get(IsoFields.WEEK_BASED_YEAR)
    return dict(abs=int(d.toEpochDay() - EPOCH + 1), y=y, m=d.getMonthValue(), d=d.getDayOfMonth(),
                o=d.getDayOfYear(), wy=wy, w=d.get(IsoFields.WEEK_OF_WEEK_BASED_YEAR),
                wd=d.getDayOfWeek().getValue())


def julian(absday):
    """Richards' algorithm (JDN to Julian calendar), independent of pyslet"""
    c = absday + 1721425 + 32082  # JDN of 0001-01-01 is 1721426
    d = (4 * c + 3) // 1461
    e = c - 1461 * d // 4
    mm = (5 * e + 2) // 153
    return d - 4800 + mm // 10, mm + 3 - 12 * (mm // 10), e - (153 * mm + 2) // 5 + 1


def make(f):
    return Date(century=f['y'] // 100, year=f['y'] % 100, month=f['m'], day=f['d'])


def interesting(r):
    k = r.randrange(6)
    if k == 0:
        return r.randint(1, MAXABS)
    if k == 1:      # year end
        y = r.randint(1, 9999)
        a = LocalDate.of(y, 12, 31)
    elif k == 2:    # end of february
        a = LocalDate.of(r.randint(1, 9999), 2, 28)
    elif k == 3:    # century end
        a = LocalDate.of(min(9999, max(1, r.randint(1, 99) * 100)), r.choice([1, 2, 12]), 28)
    elif k == 4:
        a = LocalDate.of(r.choice([400, 800, 1200, 1600, 2000, 2400, 4000, 9600]), r.choice([1, 2, 12]), 28)
    else:
        a = LocalDate.of(r.choice([1, 2, 3, 4, 5, 9995, 9996, 9997, 9998, 9999]), r.randint(1, 12), 28)
    n = a.toEpochDay() - EPOCH + 1 + r.randint(-4, 4)
    return int(max(1, min(MAXABS, n)))


def check_day(m, a, prev=None):
    f = fields(ld(a))
    y = f['y']
    want_cal = (y // 100, y % 100, f['m'], f['d'])
    want_ord = (y // 100, y % 100, f['o'])
    want_week = (f['wy'] // 100, f['wy'] % 100 // 10, f['wy'] % 10, f['w'], f['wd'])
    forms = []
    forms.append(('absolute', Date(absoluteDay=a)))
    forms.append(('calendar', make(f)))
    forms.append(('ordinal', Date(century=y // 100, year=y % 100, ordinalDay=f['o'])))
    wy = f['wy']
    forms.append(('week', Date(century=wy // 100, decade=wy % 100 // 10, year=wy % 10, week=f['w'], weekday=f['wd'])))
    jy, jm, jd = julian(a)
    if jy >= 1:
        forms.append(('julian', Date.FromJulian(jy, jm, jd)))
    forms.append(('struct', Date.FromStructTime([y, f['m'], f['d'], 0, 0, 0, 0, 0, 0])))
    forms.append(('copy', Date(forms[1][1])))
    for name, d in forms:
        ok = m.eq(d.GetCalendarDay(), want_cal, 'calendar-of-%s-form' % name, a, want_cal)
        ok = m.eq(d.GetOrdinalDay(), want_ord, 'ordinal-of-%s-form' % name, a, want_cal) and ok
        ok = m.eq(d.GetWeekDay(), want_week, 'week-of-%s-form' % name, a, want_cal) and ok
        m.eq(d.GetAbsoluteDay(), a, 'absolute-of-%s-form' % name, want_cal)
        if jy >= 1:
            m.eq(d.GetJulianDay(), (jy, jm, jd), 'julian-of-%s-form' % name, want_cal)
        t = [None] * 9
        d.UpdateStructTime(t)
        m.eq((t[0], t[1], t[2], t[6], t[7]), (y, f['m'], f['d'], f['wd'] - 1, f['o']), 'struct_time-of-%s-form' % name, want_cal)
        m.eq(bool(d.LeapYear()), bool(ld(a).isLeapYear()), 'leap-year', want_cal)
        m.check(d == forms[0][1] and not (d != forms[0][1]) and hash(d) == hash(forms[0][1]), 'equality-across-forms', name, want_cal)
        m.check(d.Complete() and d.GetPrecision() == Precision.Complete, 'precision', name)
    m.eq(iso.DayOfWeek(y, f['m'], f['d']), f['wd'], 'DayOfWeek', want_cal)
    m.eq(bool(iso.LeapYear(y)), bool(ld(a).isLeapYear()), 'LeapYear', y)
    m.eq(iso.WeekCount(y), LocalDate.of(y, 12, 28).get(IsoFields.WEEK_OF_WEEK_BASED_YEAR), 'WeekCount', y)
    m.count('days')
    return forms[0][1]


def fam_days(m, r):
    """a run of consecutive days around an interesting day"""
    a = interesting(r)
    m.key(a)
    m.sample("days %d..%d from %s" % (a, a + 9, ld(a)))
    prev = None
    for i in range(10):
        if a + i > MAXABS:
            break
        d = check_day(m, a + i)
        if prev is not None:
            m.check(prev < d and d > prev and not d < prev and prev != d and prev <= d and cmp(prev, d) == -1, 'order', prev, d)
            n = prev.Offset(days=1)
            m.check(n == d, 'successor', prev, n, d)
            n = d.Offset(days=-1)
            m.check(n == prev, 'predecessor', d, n, prev)
        prev = d


def fam_order(m, r):
    a = interesting(r)
    b = interesting(r) if r.random() < 0.5 else max(1, min(MAXABS, a + r.choice([1, -1, 31, -31, 365, -365, 36524, 0])))
    m.key((a, b))
    x, y = Date(absoluteDay=a), Date(absoluteDay=b)
    m.eq(cmp(x, y), cmp(a, b), 'order', x, y)
    m.eq((x == y, x < y, x >= y), (a == b, a < b, a >= b), 'order', x, y)
    # reduced precision values are ordered among themselves and refuse mixed comparison
    fx, fy = fields(ld(a)), fields(ld(b))
    forms = [
        lambda f: Date(century=f['y'] // 100, year=f['y'] % 100, month=f['m']),
        lambda f: Date(century=f['y'] // 100, year=f['y'] % 100),
        lambda f: Date(century=f['wy'] // 100, decade=f['wy'] % 100 // 10, year=f['wy'] % 10, week=f['w']),
        lambda f: Date(century=f['y'] // 100 or 1),
        lambda f: make(f)]
    keys = [lambda f: (f['y'], f['m']), lambda f: f['y'], lambda f: (f['wy'], f['w']), lambda f: (f['y'] // 100) or 1,
            lambda f: f['abs']]
    prec = [Precision.Month, Precision.Year, Precision.Week, Precision.Century, Precision.Complete]
    i, j = r.randrange(5), r.randrange(5)
    x, y = forms[i](fx), forms[j](fy)
    m.eq(x.GetPrecision(), prec[i], 'precision', x)
    m.eq(bool(x.Complete()), i == 4, 'complete', x)
    if i == j:
        m.eq(cmp(x, y), cmp(keys[i](fx), keys[i](fy)), 'order-reduced-precision', x, y)
        if keys[i](fx) == keys[i](fy):
            m.check(hash(x) == hash(y), 'hash', x, y)
    else:
        m.raises(ValueError, 'mixed-precision-comparison-accepted', cmp, x, y)
    m.count('comparisons')


def fam_offset(m, r):
    a = interesting(r)
    d = Date(absoluteDay=a)
    kw = {}
    f = fields(ld(a))
    for k, hi in (('days', 1000), ('weeks', 200), ('months', 100), ('years', 150), ('centuries', 12)):
        if r.random() < 0.4:
            kw[k] = r.randint(-hi, hi)
    m.key((a, sorted(kw.items())))
    want = None
    n = ld(a).plusDays(kw.get('days', 0) + 7 * kw.get('weeks', 0))
    lo, hi = LocalDate.of(1, 1, 1), LocalDate.of(9999, 12, 31)
    try:
        if not (n.compareTo(lo) < 0 or n.compareTo(hi) > 0):
            mon = (n.getYear() + kw.get('years', 0) + 100 * kw.get('centuries', 0)) * 12 + n.getMonthValue() - 1 + kw.get('months', 0)
            y, mm = mon // 12, mon % 12 + 1
            if 1 <= y <= 9999:
                want = LocalDate.of(y, mm, n.getDayOfMonth())
    except DateTimeException:
        want = None
    if want is None:
        m.raises(DateTimeError, 'offset-out-of-range-accepted', d.Offset, **dict(kw, ctx=str(d)))
    else:
        got = d.Offset(**kw)
        w = fields(want)
        mech = 'offset'
        m.eq(got.GetCalendarDay(), (w['y'] // 100, w['y'] % 100, w['m'], w['d']), mech, d, kw)
        m.count('offsets_ok')
    m.eq(d.GetAbsoluteDay(), a, 'offset-mutated-source', d)


T = Truncation
CAL = [(T.No, False, 'YYYY-MM-DD'), (T.No, True, 'YYYYMMDD'), (T.Century, False, 'YY-MM-DD'), (T.Century, True, 'YYMMDD'),
       (T.Year, False, '--MM-DD'), (T.Year, True, '--MMDD'), (T.Month, False, '---DD'), (T.Month, True, '---DD')]
ORD = [(T.No, False, 'YYYY-DDD'), (T.No, True, 'YYYYDDD'), (T.Century, False, 'YY-DDD'), (T.Century, True, 'YYDDD'),
       (T.Year, False, '-DDD'), (T.Year, True, '-DDD')]
WEEK = [(T.No, False, 'YYYY-Www-D'), (T.No, True, 'YYYYWwwD'), (T.Century, False, 'YY-Www-D'), (T.Century, True, 'YYWwwD'),
        (T.Decade, False, '-Y-Www-D'), (T.Decade, True, '-YWwwD'), (T.Year, False, '-Www-D'), (T.Year, True, '-WwwD'),
        (T.Week, False, '-W-D'), (T.Week, True, '-W-D')]
CALM = [(T.No, False, 'YYYY-MM'), (T.Century, False, '-YY-MM'), (T.Century, True, '-YYMM'), (T.Year, False, '--MM'), (T.Year, True, '--MM')]
CALY = [(T.No, False, 'YYYY'), (T.No, True, 'YYYY'), (T.Century, False, '-YY'), (T.Century, True, '-YY')]
WEEKW = [(T.No, False, 'YYYY-Www'), (T.No, True, 'YYYYWww'), (T.Century, False, 'YY-Www'), (T.Century, True, 'YYWww'),
         (T.Decade, False, '-Y-Www'), (T.Decade, True, '-YWww'), (T.Year, False, '-Www'), (T.Year, True, '-Www')]


def render(fmt, f, week):
    """independent rendering of a format picture"""
    y = f['wy'] if week else f['y']
    out = fmt
    if week:
        out = out.replace('YYYY', '%04d' % y).replace('YY', '%02d' % (y % 100)).replace('Y', '%d' % (y % 10))
        out = out.replace('ww', '%02d' % f['w'])
        if out.endswith('D'):
            out = out[:-1] + '%d' % f['wd']
    else:
        out = out.replace('YYYY', '%04d' % y).replace('YY', '%02d' % (y % 100))
        out = out.replace('MM', '%02d' % f['m']).replace('DDD', '%03d' % f['o']).replace('DD', '%02d' % f['d'])
    return out


def fam_strings(m, r):
    """format, parse back (with a base for the truncated forms)"""
    a = interesting(r)
    d = ld(a)
    f = fields(d)
    kind = r.randrange(6)
    pics = [CAL, ORD, WEEK, CALM, CALY, WEEKW][kind]
    trunc, basic, fmt = r.choice(pics)
    week = kind in (2, 5)
    y = f['wy'] if week else f['y']
    if kind == 3:
        v = Date(century=y // 100, year=y % 100, month=f['m'])
        key = lambda g: (g['y'], g['m'])
    elif kind == 4:
        v = Date(century=y // 100, year=y % 100)
        key = lambda g: g['y']
    elif kind == 5:
        v = Date(century=y // 100, decade=y % 100 // 10, year=y % 10, week=f['w'])
        key = lambda g: (g['wy'], g['w'])
    else:
        v = make(f)
        key = lambda g: g['abs']
    get = [v.GetCalendarString, v.GetOrdinalString, v.GetWeekString, v.GetCalendarString, v.GetCalendarString, v.GetWeekString][kind]
    s = get(basic, trunc)
    want = render(fmt, f, week)
    m.key((fmt, want))
    m.eq(s, want, 'format-' + fmt, v)
    if kind in (0, 3, 4):
        m.eq((str(v), unicode(v)), (v.GetCalendarString(),) * 2, 'str', v)
    if fmt.startswith('YYYY'):
        got, gfmt = Date.FromStringFormat(want)
        m.eq(gfmt, fmt, 'parsed-format', want)
        m.check(got == v, 'parse-' + fmt, want, got)
        m.check(Date.FromString(unicode(want)) == v, 'parse-unicode', want)
        m.count('roundtrips')
        return
    # truncated: choose a base on or before, within one period of the missing component
    span = {'YY': 36524, '-Y': 36524, '--': 365, '-D': 365, '-W': 364}[fmt[:2]]
    if fmt == '---DD':
        span = 28
    elif fmt == '-W-D':
        span = 6
    elif fmt.startswith('-Y') and week:
        span = 3640
    back = r.choice([0, 1, span // 2, r.randint(0, span), r.randint(0, span)])
    if a - back < 1:
        back = 0
    base = ld(a - back)
    g = fields(base)
    # only when the value is the earliest one of its form on or after the base:
    # that is so when no other value of this form lies in [base, value)
    unique = True
    if fmt == '---DD':
        unique = back < 28
    elif fmt == '-W-D':
        unique = back < 7
    elif week:
        wlim = {'YY': 100, '-Y': 10, '-W': 1}[fmt[:2]]
        unique = f['wy'] - g['wy'] < wlim or (f['wy'] - g['wy'] == wlim and (f['w'], f['wd'] if kind == 2 else 0) < (g['w'], g['wd'] if kind == 2 else 0))
    elif kind in (0, 1):
        ylim = {'YY': 100, '--': 1, '-D': 1}[fmt[:2]]
        if kind == 0:
            unique = f['y'] - g['y'] < ylim or (f['y'] - g['y'] == ylim and (f['m'], f['d']) < (g['m'], g['d']))
        else:
            unique = f['y'] - g['y'] < ylim or (f['y'] - g['y'] == ylim and f['o'] < g['o'])
    elif kind == 3:
        ylim = {'-Y': 100, '--': 1}[fmt[:2]]
        unique = f['y'] - g['y'] < ylim or (f['y'] - g['y'] == ylim and f['m'] < g['m'])
    elif kind == 4:
        unique = f['y'] - g['y'] < 100
    if not unique:
        return
    # values of the form that the code rejects because the carry lands on a
    # date that does not exist are not earlier values, so nothing else to exclude
    got, gfmt = Date.FromStringFormat(want, make(g))
    m.eq(gfmt, fmt, 'parsed-format', want)
    m.check(got == v and got.GetPrecision() == v.GetPrecision(), 'parse-truncated-' + fmt, want, 'base', make(g), 'got', got, 'want', v)
    m.check(make(g) == Date(absoluteDay=a - back), 'parse-mutated-base')
    m.count('truncated_roundtrips')


def fam_invalid(m, r):
    """values that are no date are refused by constructors and parser alike"""
    y = r.randint(1, 9999)
    leap = LocalDate.of(y, 1, 1).isLeapYear()
    k = r.randrange(9)
    c, yy = y // 100, y % 100
    if k == 0:
        mm = r.choice([0, 13, 14, 99])
        kw, s = dict(century=c, year=yy, month=mm, day=1), '%04d-%02d-01' % (y, mm)
    elif k == 1:
        mm = r.randint(1, 12)
        dd = r.choice([0, LocalDate.of(y, mm, 1).lengthOfMonth() + 1, 32, 99])
        kw, s = dict(century=c, year=yy, month=mm, day=dd), '%04d-%02d-%02d' % (y, mm, dd)
    elif k == 2:
        o = r.choice([0, 366 + leap, 367, 999])
        kw, s = dict(century=c, year=yy, ordinalDay=o), '%04d-%03d' % (y, o)
    elif k == 3:
        n = LocalDate.of(y, 12, 28).get(IsoFields.WEEK_OF_WEEK_BASED_YEAR)
        w = r.choice([0, n + 1, 54, 99])
        kw, s = dict(century=c, decade=yy // 10, year=yy % 10, week=w, weekday=r.randint(1, 7)), None
        s = '%04d-W%02d-%d' % (y, w, kw['weekday'])
    elif k == 4:
        wd = r.choice([0, 8, 9])
        kw, s = dict(century=c, decade=yy // 10, year=yy % 10, week=r.randint(1, 52), weekday=wd), None
        s = '%04dW%02d%d' % (y, kw['week'], wd)
    elif k == 5:
        kw, s = dict(century=0, year=0, month=r.randint(1, 12), day=1), '0000-01-01'
    elif k == 6:
        kw, s = dict(century=r.choice([-1, 100]), year=yy, month=1, day=1), '%04d-02-30' % y
    elif k == 7:
        a = r.choice([0, -1, -365, MAXABS + 1, MAXABS + 400])
        kw, s = dict(absoluteDay=a), None
    else:
        n = LocalDate.of(y, 12, 28).get(IsoFields.WEEK_OF_WEEK_BASED_YEAR)
        w = r.choice([0, n + 1, 54])
        kw, s = dict(century=c, decade=yy // 10, year=yy % 10, week=w), '%04d-W%02d' % (y, w)
    m.key(sorted(kw.items()))
    mech = ['month', 'day', 'ordinal', 'week', 'weekday', 'year-zero', 'century', 'absolute', 'week-precision'][k]
    m.raises((DateTimeError, ValueError), 'invalid-%s-accepted' % mech, Date, **kw)
    if s is not None:
        m.raises(Exception, 'invalid-%s-string-accepted' % mech, Date.FromString, s)
    # syntax
    good = '%04d-%02d-%02d' % (y, 1, 2)
    bad = r.choice([good[:-1], 'x' + good, good[:3], '', 'zz'])
    m.raises(Exception, 'malformed-date-accepted', Date.FromString, bad)
    m.count('rejections')


FAMILIES = [
    Family('days', fam_days, 4000, 60000),
    Family('order', fam_order, 8000, 80000),
    Family('offset', fam_offset, 8000, 80000),
    Family('strings', fam_strings, 24000, 240000),
    Family('invalid', fam_invalid, 4000, 40000),
]
