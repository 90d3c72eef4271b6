"""D02 times, time zones, time points and durations"""

from fractions import Fraction
from lib import Family
from java.time import LocalDate
import pyslet.iso8601 as iso
from pyslet.iso8601 import Date, Time, TimePoint, Duration, Truncation, Precision, DateTimeError
import d01

PROPERTY = 'D02'
EPOCH = d01.EPOCH


def digits(r, n):
    return ''.join(r.choice('0123456789') for i in range(n))


def rzone(r):
    """(constructor kw, offset minutes or None, basic string, extended string)"""
    k = r.randrange(6)
    if k == 0:
        return {}, None, '', ''
    if k == 1:
        return dict(zDirection=0), 0, 'Z', 'Z'
    s = r.choice([1, -1])
    h = r.choice([0, 0, 1, 5, 11, 12, 13, 14, 23, r.randint(0, 23)])
    mm = r.choice([0, 0, 15, 30, 45, 59, r.randint(0, 59)])
    sign = '+' if s > 0 else '-'
    if k == 2:
        return dict(zDirection=s, zHour=h), s * h * 60, '%s%02d' % (sign, h), '%s%02d' % (sign, h)
    return (dict(zDirection=s, zHour=h, zMinute=mm), s * (h * 60 + mm), '%s%02d%02d' % (sign, h, mm),
            '%s%02d:%02d' % (sign, h, mm))


def rhms(r):
    h = r.choice([0, 1, 11, 12, 13, 22, 23, r.randint(0, 23)])
    mi = r.choice([0, 1, 29, 30, 58, 59, r.randint(0, 59)])
    s = r.choice([0, 1, 30, 58, 59, r.randint(0, 59)])
    return h, mi, s


def rtime(r, prec=None, zone=True):
    """(Time, prec, (h,m,s), zone tuple)"""
    prec = r.randrange(3) if prec is None else prec
    h, mi, s = rhms(r)
    z = rzone(r) if zone else ({}, None, '', '')
    kw = dict(hour=h)
    if prec >= 1:
        kw['minute'] = mi
    else:
        mi = None
    if prec >= 2:
        kw['second'] = s
    else:
        s = None
    kw.update(z[0])
    return Time(**kw), prec, (h, mi, s), z


def fam_timestr(m, r):
    """fields -> string -> fields for every precision, fraction, zone and form"""
    t, prec, (h, mi, s), z = rtime(r)
    basic = r.random() < 0.5
    ndp = r.choice([0, 0, 0, 1, 2, 3, 6])
    dp = r.choice([',', '.'])
    frac = digits(r, ndp)
    parts = ['%02d' % h]
    pics = ['hh']
    if prec >= 1:
        parts.append('%02d' % mi)
        pics.append('mm')
    if prec >= 2:
        parts.append('%02d' % s)
        pics.append('ss')
    sep = '' if basic else ':'
    stem, fmt = sep.join(parts), sep.join(pics)
    if ndp:
        stem += dp + frac
        fmt += dp + 'hms'[prec]
    zs = z[2] if basic else z[3]
    src = stem + zs
    m.key((prec, basic, ndp, zs[:1], src))
    got, overflow, gfmt = Time.FromStringFormat(src)
    m.eq(overflow, 0, 'overflow-on-complete-form', src)
    zfmt = {'': '', 'Z': 'Z'}.get(zs, None)
    if zfmt is None:
        zfmt = '+hh' if len(zs) == 3 else ('+hhmm' if basic else '+hh:mm')
    m.eq(gfmt, fmt + zfmt, 'parsed-format', src)
    want = [h, mi, s]
    g = got.GetTime()
    if ndp:
        want[prec] = want[prec] + Fraction(int(frac), 10 ** ndp)
    for a, b in zip(g, want):
        if b is None:
            m.check(a is None, 'parse-field', src, g)
        else:
            m.check(a is not None and abs(Fraction(a) - b) < Fraction(1, 10 ** 9), 'parse-field', src, g)
    m.eq(got.GetZoneOffset(), z[1], 'parse-zone', src)
    m.eq(got.GetPrecision(), [Precision.Hour, Precision.Minute, Precision.Complete][prec], 'parse-precision', src)
    m.eq(bool(got.Complete()), prec == 2, 'parse-complete', src)
    zp = Precision.Hour if (len(zs) == 3 and r.random() < 0.5) else Precision.Complete
    out = got.GetString(basic, Truncation.No, ndp, zp, dp)
    wzs = zs
    if len(zs) == 3 and zp == Precision.Complete:
        wzs = zs + ('00' if basic else ':00')
    m.eq(out, stem + wzs, 'format-after-parse', src)
    if not ndp:
        m.check(got == t and hash(got) == hash(t), 'parse-equals-constructed', src, got, t)
        m.eq(str(t), t.GetString(), 'str', t)
        m.check(Time.FromString(unicode(str(t))) == t, 'str-roundtrip', t)
        t2 = Time(t)
        m.check(t2 == t and t2.GetTimeAndZone() == t.GetTimeAndZone(), 'copy', t)
    # zone accessors agree with each other
    zd, zh, zm = got.GetZone3()
    cd, ch, cm = got.GetCanonicalZone()
    if z[1] is None:
        m.check((zd, zh, zm, cd, ch, cm) == (None,) * 6, 'zone-accessors', src)
    else:
        m.eq(zd * (zh * 60 + zm), z[1], 'zone-accessors', src)
        m.eq(cd * (ch * 60 + cm), z[1], 'zone-accessors', src)
        m.check(z[1] != 0 or cd == 0, 'zone-canonical', src)
        m.eq(got.GetZoneString(basic), zs if len(zs) != 3 else zs + ('00' if basic else ':00'), 'zone-string', src)
    # strip / replace the zone
    z2 = rzone(r)
    w = got.WithZone(**dict(dict(zDirection=None), **z2[0]))
    m.check(w.GetTime() == g and w.GetZoneOffset() == z2[1], 'with-zone', src, z2)
    if z2[2]:
        w2, f2 = got.WithZoneStringFormat(z2[2] if basic else z2[3])
        m.check(w2 == w, 'with-zone-string-format', src, z2)
        w3 = got.WithZoneString(z2[2] if basic else z2[3])
        m.check(w3 == w, 'with-zone-string', src, z2)
    m.count('time_strings')


def fam_truncated(m, r):
    """-mm:ss and --ss forms resolve to the earliest time on or after the base"""
    bh, bm, bs = rhms(r)
    z = rzone(r)
    base = Time(hour=bh, minute=bm, second=bs, **z[0])
    h, mi, s = rhms(r)
    k = r.randrange(4)
    basic = r.random() < 0.5
    b = bh * 3600 + bm * 60 + bs
    if k == 0:
        src = '-%02d%s%02d' % (mi, '' if basic else ':', s)
        want = bh * 3600 + mi * 60 + s
        if want < b:
            want += 3600
    elif k == 1:
        src = '--%02d' % s
        want = bh * 3600 + bm * 60 + s
        if want < b:
            want += 60
    elif k == 2:
        src = '-%02d' % mi
        want = bh * 3600 + mi * 60
        if mi < bm:
            want += 3600
    else:
        src = '%02d%s%02d%s%02d' % (h, '' if basic else ':', mi, '' if basic else ':', s)
        want = h * 3600 + mi * 60 + s
    m.key((k, src, bh, bm, bs))
    got, overflow, fmt = Time.FromStringFormat(src, base)
    wo, ws = divmod(want, 86400)
    wt = (ws // 3600, ws // 60 % 60, ws % 60 if k != 2 else None)
    m.eq((got.GetTime(), overflow), (wt, wo), 'truncated-time', src, base)
    m.eq(got.GetZoneOffset(), z[1], 'truncated-time-zone', src, base)
    m.eq(base.GetTime(), (bh, bm, bs), 'base-mutated', src)
    if k < 2:
        m.eq(base.Extend(minute=mi if k == 0 else None, second=s)[0].GetTime(), wt, 'extend', src, base)
        trunc = [Truncation.Hour, Truncation.Minute][k]
        m.eq(got.GetString(basic, trunc), src, 'format-truncated', got)
    m.count('truncated')


def fam_extend(m, r):
    """Extend with fractions and near misses: the earliest time on or after the base"""
    bh, bm, bs = rhms(r)
    bs = bs + r.choice([0, 0.125, 0.5, 0.875])
    z = rzone(r)
    base = Time(hour=bh, minute=bm, second=bs, **z[0])
    h = r.choice([bh, r.randrange(24)])
    mi = r.choice([bm, bm, (bm + 1) % 60, (bm - 1) % 60, r.randrange(60)])
    s = r.choice([bs, int(bs), (int(bs) + 1) % 60, (int(bs) - 1) % 60, r.randrange(60)])
    s = r.choice([s, int(s) + r.choice([0, 0.125, 0.5, 0.875])])
    k = r.randrange(3)
    b = bh * 3600 + bm * 60 + bs
    if k == 0:
        want = bh * 3600 + mi * 60 + s
        want += 3600 if want < b else 0
        got = base.Extend(minute=mi, second=s)
    elif k == 1:
        want = bh * 3600 + bm * 60 + s
        want += 60 if want < b else 0
        got = base.Extend(second=s)
    else:
        want = h * 3600 + mi * 60 + s
        got = base.Extend(hour=h, minute=mi, second=s)
    m.key((k, h, mi, s, bh, bm, bs))
    wo, ws = divmod(want, 86400)
    m.eq((got[0].GetTime(), got[1]), ((int(ws // 3600), int(ws // 60 % 60), ws % 60), int(wo)), 'extend-fraction', base, (k, h, mi, s))
    m.eq(got[0].GetZoneOffset(), z[1], 'extend-zone', base)
    m.eq(base.GetTime(), (bh, bm, bs), 'extend-base-mutated', base)
    m.count('extended')


def fam_offset(m, r):
    """time + offset is arithmetic modulo one day, with the days carried"""
    t, prec, (h, mi, s), z = rtime(r)
    kw = {}
    total = Fraction(h * 3600 + (mi or 0) * 60 + (s or 0))
    unit = [3600, 60, 1]
    names = ['hours', 'minutes', 'seconds']
    kind = r.randrange(3)
    for i in range(prec + 1):
        if r.random() < 0.7:
            v = r.randint(-100, 100) if r.random() < 0.6 else r.randint(-200000, 200000) // unit[i]
            if i == prec and kind == 0:
                q = r.choice([2, 4, 8])
                v = v + float(r.randint(1, q - 1)) / q
            kw[names[i]] = v
            total += Fraction(v) * unit[i]
    m.key((h, mi, s, sorted(kw.items())))
    got, days = t.Offset(**kw)
    wd = total // 86400
    rest = total - wd * 86400
    gh, gm, gs = got.GetTime()
    g = Fraction(gh) * 3600 + Fraction(gm or 0) * 60 + Fraction(gs or 0)
    m.check(g == rest and days == wd, 'offset', t, kw, 'got', got, days, 'want', float(rest), int(wd))
    m.check((gm is None) == (mi is None) and (gs is None) == (s is None), 'offset-precision', t, got)
    m.eq(got.GetZoneOffset(), z[1], 'offset-zone', t, kw)
    m.eq(t.GetTime(), (h, mi, s), 'offset-mutated-source', t)
    if prec == 2:
        m.eq(t.GetTotalSeconds(), h * 3600 + mi * 60 + s, 'total-seconds', t)
        m.check(Time(totalSeconds=h * 3600 + mi * 60 + s) == t.WithZone(zDirection=None), 'total-seconds-constructor', t)
        m.raises(DateTimeError, 'total-seconds-overflow-accepted', Time, totalSeconds=r.choice([86400, 100000, -1]))
    m.count('offsets')


def rpoint(r, prec=None, zoned=None):
    """(TimePoint, instant in seconds without zone, zone minutes or None, prec)"""
    a = d01.interesting(r)
    a = max(10, min(d01.MAXABS - 10, a))
    while True:
        t, prec2, (h, mi, s), z = rtime(r, prec)
        if zoned is None or (z[1] is not None) == zoned:
            break
    d = Date(absoluteDay=a)
    return TimePoint(date=d, time=t), a * 86400 + h * 3600 + (mi or 0) * 60 + (s or 0), z[1], prec2, (a, h, mi, s, z)


def hashable(prec, z):
    """hour precision values in part-hour zones have no hash: they cannot be
    brought to UTC without more precision"""
    return prec > 0 or not (z or 0) % 60


def fam_points(m, r):
    """time point strings in the three date forms and two styles"""
    p, local, z, prec, (a, h, mi, s, zz) = rpoint(r)
    f = d01.fields(d01.ld(a))
    k = r.randrange(3)
    basic = r.random() < 0.5
    pics = [d01.CAL, d01.ORD, d01.WEEK][k]
    fmt = [x for x in pics if x[0] == Truncation.No and x[1] == basic][0][2]
    ds = d01.render(fmt, f, k == 2)
    sep = '' if basic else ':'
    ts = sep.join('%02d' % x for x in (h, mi, s) if x is not None)
    tf = sep.join(['hh', 'mm', 'ss'][:prec + 1])
    zs = zz[2] if basic else zz[3]
    full = zs
    if len(zs) == 3:
        full += '00' if basic else ':00'
    get = [p.GetCalendarString, p.GetOrdinalString, p.GetWeekString][k]
    m.key((ds, ts, zs))
    out = get(basic)
    m.eq(out, ds + 'T' + ts + full, 'format-point', p)
    got, gf = TimePoint.FromStringFormat(ds + 'T' + ts + zs)
    zf = {'': '', 'Z': 'Z'}.get(zs)
    if zf is None:
        zf = '+hh' if len(zs) == 3 else ('+hhmm' if basic else '+hh:mm')
    m.eq(gf, fmt + 'T' + tf + zf, 'point-format', ds, ts, zs)
    m.check(got == p and (hashable(prec, z) and hash(got)) == (hashable(prec, z) and hash(p)) and got.time.GetZoneOffset() == z, 'parse-point', out, got)
    m.check(TimePoint.FromString(out) == p, 'parse-point', out)
    m.eq(got.GetCalendarTimePoint(), (f['y'] // 100, f['y'] % 100, f['m'], f['d'], h, mi, s), 'point-fields', out)
    m.eq(got.GetOrdinalTimePoint(), (f['y'] // 100, f['y'] % 100, f['o'], h, mi, s), 'point-fields', out)
    m.eq(got.GetWeekDayTimePoint(), (f['wy'] // 100, f['wy'] % 100 // 10, f['wy'] % 10, f['w'], f['wd'], h, mi, s), 'point-fields', out)
    m.check(str(p) == p.GetCalendarString() and TimePoint.FromString(str(p)) == p, 'str-point', p)
    alt = r.choice(['t', ' ', '_'])
    m.check(TimePoint.FromString(out.replace('T', alt), tDesignators='T' + alt) == p, 'designator', out, alt)
    # mixed basic/extended is refused
    if prec >= 1:
        other = (':' if basic else '').join('%02d' % x for x in (h, mi, s) if x is not None)
        m.raises(DateTimeError, 'mixed-style-accepted', TimePoint.FromString, ds + 'T' + other)
        if len(zs) > 3:
            m.raises(DateTimeError, 'mixed-style-accepted', TimePoint.FromString, ds + 'T' + ts + (zz[3] if basic else zz[2]))
    # incomplete dates are not time points
    m.raises(DateTimeError, 'incomplete-date-accepted', TimePoint.FromString,
             r.choice(['%04d-%02d' % (f['y'], f['m']), '%04d' % f['y'], '%04d-W%02d' % (f['wy'], f['w'])]) + 'T' + ts)
    tt = [None] * 9
    if prec == 2:
        p.UpdateStructTime(tt)
        m.eq(tt[:6], [f['y'], f['m'], f['d'], h, mi, s], 'struct-time', p)
        m.check(TimePoint.FromStructTime(tt) == p.WithZone(zDirection=None), 'struct-time', p)
        # instants since the Unix epoch
        if -2000000000 < local - 719163 * 86400 < 2000000000:
            u = TimePoint.FromUnixTime(int(local - 719163 * 86400))
            m.check(u == p.WithZone(zDirection=None), 'unix-time', p, u)
            m.count('unix_times')
    m.count('points')


def fam_shift(m, r):
    """shifting zone keeps the instant and lands in the zone asked for"""
    p, local, z, prec, x = rpoint(r, zoned=True)
    while True:
        z2 = rzone(r)
        if z2[1] is not None:
            break
    m.key((x, z2))
    if prec == 0 and (z2[1] - z) % 60:
        m.raises(DateTimeError, 'hour-precision-shift-accepted', p.ShiftZone, **z2[0])
        return
    q = p.ShiftZone(**z2[0])
    d, t = q.date, q.time
    h, mi, s = t.GetTime()
    local2 = d.GetAbsoluteDay() * 86400 + h * 3600 + (mi or 0) * 60 + (s or 0)
    m.eq(local2 - z2[1] * 60, local - z * 60, 'shift-instant', p, z2, q)
    m.eq(t.GetZoneOffset(), z2[1], 'shift-zone', p, z2, q)
    m.eq(t.GetPrecision(), p.time.GetPrecision(), 'shift-precision', p, q)
    m.check(q == p and p == q and not (q < p) and not (q > p) and (not (hashable(prec, z) and hashable(prec, z2[1])) or hash(q) == hash(p)), 'shift-equality', p, q)
    t2, over = p.time.ShiftZone(**z2[0])
    m.check(t2 == t and over == d.GetAbsoluteDay() - p.date.GetAbsoluteDay(), 'shift-overflow', p, z2, over)
    m.raises(DateTimeError, 'shift-to-unspecified-accepted', p.ShiftZone, None)
    m.raises(DateTimeError, 'shift-unspecified-accepted', p.WithZone(None).ShiftZone, **z2[0])
    m.count('shifts')


def fam_order(m, r):
    """comparison of time points is comparison of instants; values that cannot
    be compared are refused"""
    zoned = r.random() < 0.8
    prec = r.randrange(3)
    p, l1, z1, prec1, x = rpoint(r, prec, zoned)
    near = r.random() < 0.6
    if near and prec >= 1:
        # a second point within a few hours, in another zone
        z2 = rzone(r)
        while (z2[1] is not None) != zoned:
            z2 = rzone(r)
        delta = r.choice([0, 0, 60, -60, 3600, -3600, 86400, -86400, r.randint(-2000, 2000) * 60])
        if prec == 2 and r.random() < 0.3:
            delta += r.choice([1, -1])
        l2 = l1 - (z1 or 0) * 60 + delta + (z2[1] or 0) * 60
        a, rest = [int(x) for x in divmod(l2, 86400)]
        kw = dict(hour=rest // 3600, minute=rest // 60 % 60)
        if prec == 2:
            kw['second'] = rest % 60
        kw.update(z2[0])
        q = TimePoint(date=Date(absoluteDay=a), time=Time(**kw))
        z2 = z2[1]
    else:
        q, l2, z2, prec2, y = rpoint(r, prec, zoned)
        if prec == 0 and ((z1 or 0) - (z2 or 0)) % 60:
            return
    m.key((str(p), str(q)))
    want = cmp(l1 - (z1 or 0) * 60, l2 - (z2 or 0) * 60)
    m.eq(cmp(p, q), want, 'compare-points', p, q)
    m.eq((p == q, p != q, p < q, p <= q, p > q, p >= q), (want == 0, want != 0, want < 0, want <= 0, want > 0, want >= 0), 'compare-points', p, q)
    m.eq(cmp(q, p), -want, 'compare-antisymmetric', p, q)
    if want == 0 and hashable(prec, z1) and hashable(prec, z2):
        m.check(hash(p) == hash(q), 'hash-of-equals', p, q)
        m.count('equal_points')
    # same zone times compare by value
    a, b = p.time, q.time
    if a.GetZoneOffset() == b.GetZoneOffset():
        m.eq(cmp(a, b), cmp(a.GetTime(), b.GetTime()), 'compare-times', a, b)
    else:
        m.raises(ValueError, 'mixed-zone-comparison-accepted', cmp, a, b)
    if z1 is not None:
        m.raises(ValueError, 'zoned-unzoned-comparison-accepted', cmp, p, q.WithZone(zDirection=None))
    o, l3, z3, prec3, y = rpoint(r, (prec + 1) % 3, zoned)
    m.raises(ValueError, 'mixed-precision-comparison-accepted', cmp, p, o)
    m.count('comparisons')


def fam_precision(m, r):
    """changing precision keeps the value (or its integer part)"""
    t, prec, (h, mi, s), z = rtime(r, 2)
    f = Fraction(r.choice([0, 0, 1, 2, 3]), 4)
    if f:
        t = Time(hour=h, minute=mi, second=s + float(f), **z[0])
    target = r.choice([Precision.Hour, Precision.Minute, Precision.Complete])
    trunc = r.random() < 0.5
    m.key((h, mi, s, f, target, trunc))
    if r.random() < 0.5:
        q = t.WithPrecision(target, trunc)
    else:
        q = TimePoint(date=Date(absoluteDay=700000), time=t).WithPrecision(target, trunc)
        m.eq(q.date.GetAbsoluteDay(), 700000, 'precision-date', t)
        q = q.time
    m.eq(q.GetPrecision(), target, 'precision', t, q)
    m.eq(q.GetZoneOffset(), z[1], 'precision-zone', t, q)
    v = Fraction(h * 3600 + mi * 60 + s) + f
    unit = {Precision.Hour: 3600, Precision.Minute: 60, Precision.Complete: 1}[target]
    if trunc:
        v = v // unit * unit
    gh, gm, gs = q.GetTime()
    g = Fraction(gh) * 3600 + Fraction(gm or 0) * 60 + Fraction(gs or 0)
    m.check(abs(g - v) < Fraction(1, 10 ** 6), 'precision-value', t, target, trunc, q)
    # and back up again
    if not trunc:
        b = q.WithPrecision(Precision.Complete)
        gh, gm, gs = b.GetTime()
        g = Fraction(gh) * 3600 + Fraction(gm) * 60 + Fraction(gs)
        m.check(abs(g - v) < Fraction(1, 10 ** 6) and b.GetPrecision() == Precision.Complete, 'precision-back', t, q, b)
    m.count('precisions')


def fam_duration(m, r):
    """durations: string to fields and back"""
    if r.random() < 0.15:
        n = r.choice([0, 1, 52, r.randint(0, 1000)])
        src = 'P%dW' % n
        m.key(src)
        d = Duration(src)
        m.eq(d.GetWeekDuration(), n, 'weeks', src)
        m.check(d == Duration(src) and d == src, 'duration-equality', src)
        m.raises(DateTimeError, 'week-duration-has-calendar-form', d.GetCalendarDuration)
        m.eq(d.GetString(), src, 'format-weeks', src)
        e = Duration(d)
        m.check(e == d, 'copy', src)
        return
    n = [r.choice([0, 1, 9, 10, 99, r.randint(0, 500)]) for i in range(6)]
    last = r.randrange(6)
    first = r.randint(0, last)
    ndp = r.choice([0, 0, 0, 1, 2, 3])
    frac = digits(r, ndp)
    dp = r.choice(',.')
    want = []
    src = 'P'
    for i in range(6):
        if i == 3 and last >= 3:
            src += 'T'
        if i > last:
            want.append(None)
        elif i < first:
            want.append(0)
        else:
            src += '%d' % n[i]
            v = Fraction(n[i])
            if i == last and ndp:
                src += dp + frac
                v += Fraction(int(frac), 10 ** ndp)
            src += 'YMDHMS'[i]
            want.append(v)
    m.key(src)
    d = Duration(src)
    got = d.GetCalendarDuration()
    for a, b in zip(got, want):
        m.check((a is None) == (b is None) and (b is None or abs(Fraction(a) - b) < Fraction(1, 10 ** 9)), 'duration-fields', src, got)
    out = d.GetString(truncateZeros=r.choice([0, 1]), ndp=ndp if dp == ',' else -ndp)
    e = Duration(out)
    m.check(e == d, 'duration-roundtrip', src, out)
    m.check(Duration(d) == d, 'duration-copy', src)
    # a different duration is different
    o = list(want)
    o[last] = int(o[last]) + 1
    f = Duration()
    f.SetCalendarDuration(*[None if x is None else int(x) for x in o])
    m.check(not (f == d), 'duration-equality', src, f.GetString())
    bad = r.choice(['', 'P', 'PT', src + 'T' if last < 3 else 'P1H', 'P1M1Y', '1Y', 'P1Y1', 'X' + src])
    m.raises(Exception, 'malformed-duration-accepted', Duration, bad)
    m.count('durations')


def fam_invalid(m, r):
    h, mi, s = rhms(r)
    k = r.randrange(9)
    kw = dict(hour=h, minute=mi, second=s)
    src = '%02d:%02d:%02d' % (h, mi, s)
    if k == 0:
        kw['hour'] = r.choice([25, 26, 99, -1])
        src = '%02d:%02d:%02d' % (abs(kw['hour']) if kw['hour'] > 0 else 25, mi, s)
    elif k == 1:
        kw['minute'] = r.choice([60, 61, 99, -1])
        src = '%02d:%02d:%02d' % (h, max(60, kw['minute']), s)
    elif k == 2:
        kw['second'] = r.choice([61, 62, 99, -1])
        src = '%02d:%02d:%02d' % (h, mi, max(61, kw['second']))
    elif k == 3:
        kw['hour'] = 24
        kw['minute'] = r.randint(1, 59)
        src = '24:%02d:%02d' % (kw['minute'], s)
    elif k == 4:
        kw['hour'], kw['minute'], kw['second'] = 24, 0, r.choice([1, 0.5, 59])
        src = '24:00:%02d' % r.randint(1, 59)
    elif k == 5:
        kw.update(zDirection=r.choice([1, -1]), zHour=24, zMinute=0)
        src += '+24:00'
    elif k == 6:
        kw.update(zDirection=r.choice([2, -2]), zHour=1, zMinute=0)
        src += '+1:00'
    elif k == 7:
        kw.update(zDirection=r.choice([1, -1]))
        src += '+'
    else:
        kw['minute'] = mi + 0.5
        src = '%02d.5:%02d:%02d' % (h, mi, s)
        src = '%02d:%02d:5' % (h, mi)
    m.key((k, sorted(kw.items())))
    m.raises((DateTimeError, ValueError), 'invalid-time-%d-accepted' % k, Time, **kw)
    m.raises(Exception, 'invalid-time-string-%d-accepted' % k, Time.FromString, src)
    m.count('rejections')


def fam_midnight(m, r):
    """The documented equivalence of the two forms of midnight"""
    m.key(r.index)
    m.check(Time(hour=24, minute=0, second=0) == Time(hour=0, minute=0, second=0), 'midnight-24-not-equal-00',
            'Time docstring: 00:00:00 and 24:00:00 are considered equivalent by comparisons')


FAMILIES = [
    Family('timestr', fam_timestr, 12000, 120000),
    Family('truncated', fam_truncated, 8000, 80000),
    Family('extend', fam_extend, 8000, 80000),
    Family('offset', fam_offset, 12000, 120000),
    Family('points', fam_points, 8000, 80000),
    Family('shift', fam_shift, 12000, 120000),
    Family('order', fam_order, 12000, 120000),
    Family('precision', fam_precision, 6000, 60000),
    Family('duration', fam_duration, 8000, 80000),
    Family('invalid', fam_invalid, 4000, 40000),
    Family('midnight', fam_midnight, 1, 1, serial=True),
]
