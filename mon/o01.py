"""O01 EDM simple values keep their value in every form"""

import base64
import calendar
import datetime
import decimal
import json
import math
import re
import struct
import uuid
from java.math import BigDecimal
import java.lang
from lib import Family
import pyslet.iso8601 as iso
import pyslet.xml20081126.structures as xml
import pyslet.odata2.csdl as edm
import pyslet.odata2.core as core

PROPERTY = 'O01'

T = edm.SimpleType
NAMES = ['Binary', 'Boolean', 'Byte', 'SByte', 'Int16', 'Int32', 'Int64', 'Single', 'Double',
         'Decimal', 'DateTime', 'DateTimeOffset', 'Time', 'Guid', 'String']
RANGES = {'Byte': (0, 255), 'SByte': (-128, 127), 'Int16': (-2 ** 15, 2 ** 15 - 1),
          'Int32': (-2 ** 31, 2 ** 31 - 1), 'Int64': (-2 ** 63, 2 ** 63 - 1)}
DIGITS = {'Byte': 99, 'SByte': 99, 'Int16': 99, 'Int32': 10, 'Int64': 19}
MAXS = (2 - 2.0 ** -23) * 2.0 ** 127
MAXD = (2 - 2.0 ** -52) * 2.0 ** 1023
REFUSED = (ValueError, TypeError, ArithmeticError)
CTX = decimal.Context(prec=100)


def tostr(x):
    return java.lang.Double.toString(x)


def single(x):
    """x at single precision"""
    return float(java.lang.Float.parseFloat(repr(x))) if not (math.isnan(x) or math.isinf(x)) else x


def samefloat(a, b):
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    return a == b


# ------------------------------------------------------------ model values
# (kind specific plain tuples, independent of the code under test)

def rint(r, lo, hi):
    k = r.random()
    if k < 0.3:
        return r.choice([lo, hi, lo + 1, hi - 1, 0 if lo <= 0 else lo, 1])
    if k < 0.6:
        return max(lo, min(hi, r.randint(-100, 100)))
    return lo + r.randrange(hi - lo + 1)


def rdouble(r, top=MAXD):
    k = r.random()
    if k < 0.08:
        return float(r.choice(['nan', 'inf', '-inf']))
    if k < 0.2:
        return r.choice([0.0, 1.0, -1.0, 0.1, 1 / 3.0, top, -top, 0.1 + 0.2, 1e16, 1e15, 123456789.123, 5e-45, 1e-5, 1e-4, 1e7])
    if k < 0.4:
        return r.randint(-10 ** 6, 10 ** 6) / 10.0 ** r.randrange(7)
    e = r.uniform(-44 if top == MAXS else -320, 38 if top == MAXS else 308)
    return max(-top, min(top, r.choice([1, -1]) * r.uniform(0.1, 9.9) * 10 ** e))


def rdecimal(r):
    k = r.random()
    n = r.randint(0, 29)
    f = r.choice([0, 0, 1, 2, r.randint(0, 29)])
    if k < 0.1:
        return r.choice(['0', '-1', '9' * 29, '-' + '9' * 29, '0.' + '0' * 28 + '1', '9' * 29 + '.' + '9' * 29, '1.10', '-0.5'])
    s = ''.join(r.choice('0123456789') for i in range(n)).lstrip('0') or '0'
    if f:
        s += '.' + ''.join(r.choice('0123456789') for i in range(f))
    return r.choice(['', '', '-']) + s


def rdate(r):
    y = r.choice([1, 99, 1900, 1969, 1970, 1999, 2000, 2013, 2400, 9999, r.randint(1, 9999)])
    m = r.randint(1, 12)
    return y, m, r.randint(1, calendar.monthrange(y, m)[1])


def rtime(r):
    """h, m, s, ticks (100ns)"""
    t = r.choice([0, 0, 1, 9999999, r.randrange(10 ** 7), r.randrange(1000) * 10000])
    return r.choice([(0, 0, 0, t), (23, 59, 59, t), (r.randrange(24), r.randrange(60), r.randrange(60), t)])


def rzone(r):
    return r.choice([0, 60, -300, 330, -210, 840, -720, r.randint(-839, 839)])


def rtext(r, xmlsafe=False):
    abc = u"abc xyz'''%+/\"<>&\\#?=(),;:@$\u00e9\u2764\u4e00\U0001F600\t\n"
    if r.random() < 0.1:
        return r.choice([u"'", u"''", u"null", u"", u" ", u"  a ", u"true", u"1", u"\\u0041", u"%27", u"]]>", u"\u2028"])
    return u''.join(r.choice(abc) for i in range(r.randrange(12)))


def model(r, name):
    if name == 'Binary':
        return ''.join(chr(r.randrange(256)) for i in range(r.choice([0, 1, 2, 3, 16, r.randrange(40)])))
    if name == 'Boolean':
        return r.random() < 0.5
    if name in RANGES:
        return rint(r, *RANGES[name])
    if name == 'Double':
        return rdouble(r)
    if name == 'Single':
        return single(rdouble(r, MAXS))
    if name == 'Decimal':
        return rdecimal(r)
    if name == 'DateTime':
        return rdate(r) + rtime(r)
    if name == 'DateTimeOffset':
        return rdate(r) + rtime(r) + (rzone(r),)
    if name == 'Time':
        return rtime(r)
    if name == 'Guid':
        return '%032x' % r.getrandbits(128)
    return rtext(r)


def isotime(h, mi, s, t, zone=None):
    sec = s + t / 1e7 if t else s
    if zone is None:
        return iso.Time(hour=h, minute=mi, second=sec, zDirection=None)
    return iso.Time(hour=h, minute=mi, second=sec, zDirection=(zone > 0) - (zone < 0),
                    zHour=abs(zone) // 60, zMinute=abs(zone) % 60)


def isodate(y, mo, d):
    return iso.Date(century=y // 100, year=y % 100, month=mo, day=d)


def native(name, mv):
    """The Python object the documentation says represents the value"""
    if name == 'Decimal':
        return decimal.Decimal(mv)
    if name == 'Int64':
        return long(mv)
    if name == 'DateTime':
        return iso.TimePoint(date=isodate(*mv[:3]), time=isotime(*mv[3:]))
    if name == 'DateTimeOffset':
        return iso.TimePoint(date=isodate(*mv[:3]), time=isotime(*mv[3:]))
    if name == 'Time':
        return isotime(*mv)
    if name == 'Guid':
        return uuid.UUID(hex=mv)
    return mv


def timetuple(t):
    """(h,m,s,ticks) from a Time, to the nearest tick"""
    s = int(math.floor(t.second))
    return t.hour, t.minute, s, int(round((t.second - s) * 1e7))


def plain(name, value):
    """Back from the python value to the model, type checked"""
    if name == 'Binary':
        assert type(value) is str, type(value)
        return value
    if name == 'Boolean':
        assert type(value) is bool
        return value
    if name in RANGES:
        assert type(value) in (int, long)
        return value
    if name in ('Double', 'Single'):
        assert type(value) is float
        return value
    if name == 'Decimal':
        assert isinstance(value, decimal.Decimal)
        return value
    if name == 'DateTime':
        c, y, mo, d = value.date.GetCalendarDay()
        assert value.GetZone()[0] is None
        return (c * 100 + y, mo, d) + timetuple(value.time)
    if name == 'DateTimeOffset':
        c, y, mo, d = value.date.GetCalendarDay()
        dr, off = value.GetZone()
        return (c * 100 + y, mo, d) + timetuple(value.time) + (dr * off,)
    if name == 'Time':
        return timetuple(value)
    if name == 'Guid':
        assert isinstance(value, uuid.UUID)
        return value.hex
    assert type(value) is unicode, type(value)
    return value


def same(name, a, b):
    if name in ('Double', 'Single'):
        return samefloat(a, b) or (name == 'Single' and samefloat(single(a), single(b)))
    if name == 'Decimal':
        return decimal.Decimal(a).compare(decimal.Decimal(b), context=CTX) == 0
    return a == b


def newvalue(name, precision=None, declare=True):
    p = edm.Property(None)
    p.name = 'P' + name
    p.simpleTypeCode = getattr(T, name)
    p.precision = precision
    if declare:
        return p()
    return edm.EDMValue.NewSimpleValue(getattr(T, name))


def secstr(s, t, precision):
    out = '%02d' % s
    if precision:
        out += '.' + ('%07d' % t)[:precision]
    return out


def trunc(mv, name, precision):
    """The model at the given precision in seconds"""
    if name not in ('DateTime', 'DateTimeOffset', 'Time'):
        return mv
    i = 3 if name == 'Time' else 6
    u = 10 ** (7 - precision)
    return mv[:i] + (mv[i] // u * u,) + mv[i + 1:]


GRAMMAR = {
    'Binary': r'([0-9A-Fa-f]{2})*\Z',
    'Boolean': r'(true|false)\Z',
    'Byte': r'[0-9]{1,3}\Z', 'SByte': r'-?[0-9]{1,3}\Z', 'Int16': r'-?[0-9]{1,5}\Z',
    'Int32': r'-?[0-9]{1,10}\Z', 'Int64': r'-?[0-9]{1,19}\Z',
    'Decimal': r'-?[0-9]{1,29}(\.[0-9]{1,29})?\Z',
    'Double': r'(?i)(-?([0-9]{1,17}|[0-9]*\.[0-9]*|[0-9]+(\.[0-9]*)?e-?[0-9]{1,3}|inf)|nan)\Z',
    'Single': r'(?i)(-?([0-9]{1,8}|[0-9]*\.[0-9]*|[0-9]+(\.[0-9]*)?e-?[0-9]{1,2}|inf)|nan)\Z',
    'DateTime': r'\d{4}-\d\d-\d\dT\d\d:\d\d(:\d\d(\.\d{1,7})?)?\Z',
    'DateTimeOffset': r'\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d(\.\d{1,7})?[-+]\d\d:\d\d\Z',
    'Time': r'\d\d:\d\d:\d\d(\.\d{1,7})?\Z',
    'Guid': r'[0-9a-fA-F]{8}(-[0-9a-fA-F]{4}){3}-[0-9a-fA-F]{12}\Z',
    'String': r'(?s).*\Z',
}


def decode(name, s):
    """Independent reading of a literal"""
    if name == 'Binary':
        return ''.join(chr(int(s[i:i + 2], 16)) for i in range(0, len(s), 2))
    if name == 'Boolean':
        return s.lower() == 'true'
    if name in RANGES:
        return int(s)
    if name in ('Double', 'Single'):
        low = s.lower()
        if low in ('nan', 'inf', '-inf'):
            return float(low)
        return BigDecimal(s).doubleValue()
    if name == 'Decimal':
        return s
    if name in ('DateTime', 'DateTimeOffset', 'Time'):
        zone = ()
        if name == 'DateTimeOffset':
            if s[-1] == 'Z':
                zone = (0,)
                s = s[:-1]
            else:
                zone = (int(s[-6] + '1') * (int(s[-5:-3]) * 60 + int(s[-2:])),)
                s = s[:-6]
        day = ()
        if name != 'Time':
            d, s = s.split('T')
            day = tuple(int(x) for x in d.split('-'))
        f = s.split(':')
        sec, frac = 0, 0
        if len(f) > 2:
            p = f[2].split('.')
            sec = int(p[0])
            if len(p) > 1:
                frac = int(p[1].ljust(7, '0'))
        return day + (int(f[0]), int(f[1]), sec, frac) + zone
    if name == 'Guid':
        return s.replace('-', '').lower()
    return s


def uridecode(s):
    """Independent reading of a URI literal: (type name, value)"""
    for p, name in (("X'", 'Binary'), ("datetime'", 'DateTime'), ("datetimeoffset'", 'DateTimeOffset'),
                    ("time'", 'Time'), ("guid'", 'Guid'), ("'", 'String')):
        if s.startswith(p):
            body = s[len(p):-1]
            assert s[-1] == "'"
            if name == 'String':
                assert "'" not in body.replace("''", '')
                return name, body.replace("''", "'")
            assert re.match(GRAMMAR[name], body), s
            return name, decode(name, body)
    if s in ('true', 'false'):
        return 'Boolean', s == 'true'
    name = {'d': 'Double', 'f': 'Single', 'm': 'Decimal', 'l': 'Int64'}.get(s[-1].lower())
    if name:
        s = s[:-1]
    else:
        name = 'Int32'
    assert re.match(GRAMMAR[name], s), s
    return name, decode(name, s)


def expect(m, name, v, mv, mech, ctx):
    m.check(v.typeCode == getattr(T, name), mech + '-type', v.typeCode, ctx)
    if v.value is None:
        m.violate(mech, 'became NULL: %s' % (ctx,))
        return False
    try:
        got = plain(name, v.value)
    except (AssertionError, AttributeError) as e:
        m.violate(mech + '-pytype', '%s %r %s' % (name, v.value, ctx))
        return False
    return m.check(same(name, got, mv), mech, repr(got), 'want', repr(mv), ctx)


# ----------------------------------------------------------------- families

def f_forms(m, r):
    """A value in each of its written forms"""
    name = r.choice(NAMES)
    mv = model(r, name)
    precision = r.choice([None, 0, 3, 7, r.randrange(8)]) if name in ('DateTime', 'DateTimeOffset', 'Time') else None
    np = precision or 0
    v = newvalue(name, precision, declare=r.random() < 0.7)
    free = v.pDef is None
    if v.pDef is None:
        np = 7      # as many digits as the value needs
    ctx = (name, mv, np)
    m.key(ctx)
    m.sample(ctx)
    m.check(v.IsNull() and not v and v.value is None, 'new-not-null', ctx)
    v.SetFromValue(native(name, mv))
    m.check(not v.IsNull() and bool(v), 'null-after-set', ctx)
    if not expect(m, name, v, mv, 'value-changed', ctx):
        return
    m.count('values')
    tv = trunc(mv, name, np)
    # literal form
    lit = unicode(v)
    if m.check(type(lit) is unicode and re.match(GRAMMAR[name], lit), 'literal-syntax', lit, ctx):
        m.check(same(name, decode(name, lit), tv), 'literal-value', lit, ctx)
        if name == 'Decimal':
            # the number of decimals is part of the literal form
            w = mv if '.' in mv or '-' != mv[0] or mv.strip('-0.') else mv
            m.check(lit.strip('-') == w.strip('-'), 'decimal-digits', lit, ctx)
    w = newvalue(name, precision)
    w.SetFromLiteral(lit)
    expect(m, name, w, tv, 'literal-roundtrip', ctx + (lit,))
    if not free and np == 7 or name not in ('Single',) and name not in ('DateTime', 'DateTimeOffset', 'Time'):
        m.check(unicode(w) == lit, 'literal-unstable', lit, unicode(w), ctx)
    # URI literal form
    try:
        ulit = core.ODataURI.FormatLiteral(v)
        un, uv = uridecode(ulit)
        if name in ('Byte', 'SByte', 'Int16'):
            m.check(un == 'Int32', 'uri-type', ulit, ctx)
        else:
            m.check(un == name, 'uri-type', ulit, ctx)
        m.check(same(name, uv, tv), 'uri-value', ulit, ctx)
    except AssertionError:
        m.violate('uri-syntax', '%r %s' % (ulit, ctx))
    src = ulit
    if name == 'String' and r.random() < 0.5 or name != 'String' and r.random() < 0.2:
        src = ulit.encode('utf-8')
        m.count('raw_uri')
    elif name != 'String' and r.random() < 0.2:
        src = ''.join(r.choice([c.upper(), c.lower()]) if c not in 'T' else c for c in ulit) if name in ('Guid', 'Double', 'Single', 'Decimal', 'Int64', 'Boolean') else ulit
    w = core.ParseURILiteral(src)
    expect(m, un, w, tv, 'uri-roundtrip', ctx + (src,))
    m.count('uri_literals')
    # JSON
    if v.pDef is None:
        v = newvalue(name, precision)
        v.SetFromValue(native(name, mv))
        np = precision or 0
    js = core.EntityPropertyInJSON1(v)
    obj = json.loads(js)
    m.check(list(obj.keys()) == ['P' + name], 'json-name', js, ctx)
    jv = obj['P' + name]
    if name in ('DateTime', 'DateTimeOffset'):
        g = re.match(r'/Date\((-?\d+)(?:([-+])(\d+))?\)/\Z', jv)
        if m.check(g, 'json-date-syntax', jv, ctx):
            secs = (calendar_days(mv[:3])) * 86400 + mv[3] * 3600 + mv[4] * 60 + mv[5]
            off = int(g.group(2) + g.group(3)) if g.group(2) else 0
            m.check(off == (mv[7] if name == 'DateTimeOffset' else 0), 'json-offset', jv, ctx)
            # to the millisecond
            want = secs * 1000 + mv[6] / 10000.0
            m.check(abs(int(g.group(1)) - want) <= (1 if mv[6] % 10000 else 0), 'json-ticks', jv, want, ctx)
            m.count('json_dates')
        jm = None
        if mv[6] % 10000 == 0:
            jm = mv
    elif name == 'Time':
        jm = trunc(mv, name, np)
        m.check(re.match(GRAMMAR[name], jv) and decode(name, jv) == jm, 'json-time', jv, ctx)
    else:
        jm = mv
        if name == 'Binary':
            m.check(base64.b64decode(jv) == mv, 'json-binary', jv, ctx)
        elif name in ('Boolean', 'Byte', 'SByte', 'Int16', 'Int32'):
            m.check(jv == mv and isinstance(jv, bool) == (name == 'Boolean'), 'json-native', jv, ctx)
        else:
            m.check(type(jv) is unicode and re.match(GRAMMAR[name], jv) and same(name, decode(name, jv), mv), 'json-text', jv, ctx)
    w = newvalue(name, precision)
    core.ReadEntityPropertyInJSON1(w, obj)
    if jm is not None:
        expect(m, name, w, jm, 'json-roundtrip', ctx + (js,))
    # XML
    np = precision or 0
    doc = core.Document(root=core.Property)
    doc.root.SetXMLName((core.ODATA_DATASERVICES_NAMESPACE, 'P' + name))
    doc.root.SetValue(v)
    out = str(doc)
    back = core.Document()
    back.Read(src=out)
    w = newvalue(name, precision)
    back.root.GetValue(w)
    expect(m, name, w, trunc(mv, name, np), 'xml-roundtrip', ctx + (out,))
    if name == 'String':
        expect(m, name, back.root.GetValue(), mv, 'xml-untyped', ctx + (out,))
    m.count('type_' + name)


def calendar_days(ymd):
    return datetime.date(*ymd).toordinal() - datetime.date(1970, 1, 1).toordinal()


def f_null(m, r):
    """NULL in every form; failed sets leave the value alone"""
    name = r.choice(NAMES)
    mv = model(r, name)
    v = newvalue(name, declare=r.random() < 0.7)
    m.key((name, mv, v.pDef is None))
    if r.random() < 0.5:
        v.SetFromValue(native(name, mv))
        r.choice([v.SetNull, lambda: v.SetFromValue(None)])()
    m.check(v.value is None and v.IsNull() and not v, 'null-kept-value', name, mv)
    m.raises(ValueError, 'null-literal', unicode, v)
    m.check(core.ODataURI.FormatLiteral(v) == 'null', 'null-uri', name)
    w = core.ParseURILiteral(r.choice(['null', 'NULL', u'null']))
    m.check(w.typeCode is None and w.IsNull(), 'null-uri-parse', repr(w))
    m.check(w.Cast(newvalue(name)).value is None and w.SimpleCast(getattr(T, name)).value is None, 'null-cast', name)
    m.check(v.SimpleCast(getattr(T, r.choice(NAMES))).value is None, 'null-cast-typed', name)
    d = newvalue(name)
    js = core.EntityPropertyInJSON1(d)
    m.check(json.loads(js) == {'P' + name: None}, 'null-json', js)
    d.SetFromValue(native(name, mv))
    core.ReadEntityPropertyInJSON1(d, json.loads(js))
    m.check(d.value is None, 'null-json-read', name)
    doc = core.Document(root=core.Property)
    doc.root.SetXMLName((core.ODATA_DATASERVICES_NAMESPACE, 'P' + name))
    doc.root.SetValue(d)
    back = core.Document()
    back.Read(src=str(doc))
    d.SetFromValue(native(name, mv))
    back.root.GetValue(d)
    m.check(d.value is None, 'null-xml-read', name)
    m.count('nulls')
    # copies are equal and independent
    d.SetFromValue(native(name, mv))
    c = edm.SimpleValue.Copy(d)
    expect(m, name, c, mv, 'copy', (name, mv))
    m.check((c == d and not c != d) or mv != mv, 'copy-equal', name, mv)
    c.SetNull()
    expect(m, name, d, mv, 'copy-shared', (name, mv))
    c = edm.SimpleValue.Copy(v)
    m.check(c.value is None and c.typeCode == v.typeCode, 'copy-null', name)
    # failed operations
    bad = r.choice([object(), [], {}, u'xyzzy', 'not a guid', datetime.date(2000, 1, 1), float('nan'), 10 ** 40, -10 ** 40, decimal.Decimal('1e50'), float('inf'), decimal.Decimal('-Infinity'), decimal.Decimal('NaN')])
    ok = name in ('Binary', 'String') or type(bad) in (float, int, long, decimal.Decimal) and name in ('Boolean', 'Double') or name == 'Single' and type(bad) is float
    if not ok:
        m.raises(REFUSED, 'set-accepted', d.SetFromValue, bad, ctx=name)
        expect(m, name, d, mv, 'failed-set-changed', (name, mv, bad))
        m.count('refused_values')
    if name not in ('String', 'Binary'):
        m.raises(ValueError, 'literal-accepted', d.SetFromLiteral, r.choice([u'', u'x', u'1x', u'--1', u'true1', u' 1', u'+1', u'1 ', u'-', u'.', u'2000-01-01', u'null']), ctx=name)
        expect(m, name, d, mv, 'failed-literal-changed', (name, mv))
    # equality is by type and value
    other = r.choice(NAMES)
    if other != name:
        o = newvalue(other)
        o.SetFromValue(native(other, model(r, other)))
        m.check(o != d and not (o == d), 'equal-across-types', name, other)


def valid(name, s):
    """Independent verdict on literal s: True/False, None to leave open"""
    g = {'Byte': r'[0-9]+\Z', 'SByte': r'-?[0-9]+\Z', 'Int16': r'-?[0-9]+\Z',
         'Decimal': r'-?(?=\.?[0-9])[0-9]{0,29}(\.[0-9]{1,29})?\Z',
         'Boolean': r'(?i)(true|false)\Z',
         'DateTimeOffset': GRAMMAR['DateTimeOffset'].replace(r'[-+]\d\d:\d\d', r'([-+]\d\d:\d\d|Z)'),
         'Time': GRAMMAR['DateTime'].split('T')[1]}.get(name, GRAMMAR[name])
    if not re.match(g, s):
        if name == 'DateTimeOffset':
            return None if re.match('.*([-+][0-9]|Z)', s[10:]) else False
        if name in ('DateTime', 'Time'):
            # the odd omitted zero is allowed
            return None if re.match(r'(\d{4}-\d+-\d+T)?\d+:\d+(:\d+(\.\d{1,7})?)?\Z', s) else False
        if name == 'Single' and re.match('(?i)-?[0-9]+e', s):
            return None
        return False
    if name in RANGES:
        return RANGES[name][0] <= int(s) <= RANGES[name][1]
    if name in ('Double', 'Single'):
        if not re.search('(?i)[0-9]|n', s):
            return False
        low = s.lower()
        if 'n' in low:
            return True
        if 'e' in low:
            if sum(c.isdigit() for c in low.split('e')[0]) > (17 if name == 'Double' else 9):
                return False
            if name == 'Single' and '.' not in s:
                return None
        x = BigDecimal(s).doubleValue()
        return abs(x) <= (MAXD if name == 'Double' else MAXS)
    if name in ('DateTime', 'DateTimeOffset', 'Time'):
        mv = decode(name, s)
        t = mv
        if name != 'Time':
            t = mv[3:]
            try:
                datetime.date(*mv[:3])
            except ValueError:
                return False if mv[0] else None
        if t[0] == 24 or t[2] == 60:
            return None
        if name == 'DateTimeOffset' and (abs(t[4]) > 14 * 60 or s[-1] != 'Z' and int(s[-2:]) > 59 or s[-6:] == '-00:00'):
            return None
        return t[0] < 24 and t[1] < 60 and t[2] < 60
    return True


def f_literals(m, r):
    """Any literal: accepted exactly when it is one, with its value"""
    name = r.choice([n for n in NAMES if n != 'String'])
    k = r.random()
    if name in RANGES and k < 0.5:
        lo, hi = RANGES[name]
        n = r.choice([lo, hi, lo - 1, hi + 1, rint(r, lo, hi), hi * 10, r.randint(-300, 300)])
        s = str(n)
        if r.random() < 0.2:
            s = s.replace('-', '-0' * r.randint(1, 3)) if n < 0 else '0' * r.randint(1, 3) + s
            if len(s.strip('-')) > DIGITS[name]:
                s = str(n)
    elif name in ('Double', 'Single') and k < 0.7:
        a = ''.join(r.choice('0123456789') for i in range(r.choice([0, 1, 3, 8, 9, 16, 17, 18])))
        s = r.choice(['', '', '-']) + a
        if r.random() < 0.6:
            s += '.' + ''.join(r.choice('0123456789') for i in range(r.choice([0, 1, 5, 16])))
        if r.random() < 0.5:
            s += r.choice('eE') + r.choice(['', '-']) + str(r.choice([0, 1, 5, 30, 37, 38, 39, 45, 99, 100, 290, 308, 309, 400, 1000]))
    elif name == 'Decimal' and k < 0.5:
        s = r.choice(['', '-']) + '1' * r.choice([0, 1, 28, 29, 30]) + r.choice(['', '.', '.' + '3' * r.choice([1, 28, 29, 30])])
    elif name in ('DateTime', 'DateTimeOffset', 'Time') and k < 0.5:
        def f(n, top):
            return '%0*d' % (n, r.choice([0, 1, top, top + 1, r.randint(1, top)]))
        s = ''
        if name != 'Time':
            s = '%04d-%s-%sT' % (r.choice([1900, 2000, 2013, 2012, r.randint(1, 9999)]), f(2, 12), r.choice([f(2, 31), f(2, 28)]))
        s += f(2, 23) + ':' + f(2, 59)
        if r.random() < 0.8:
            s += ':' + f(2, 59) + r.choice(['', '.', '.5', '.' + '1' * r.randint(1, 8)])
        if name == 'DateTimeOffset':
            s += r.choice(['Z', '+00:00', '-05:00', '+05:30', '', '+05:60'])
    else:
        v = newvalue(name, r.choice([0, 3, 7]))
        v.SetFromValue(native(name, model(r, name)))
        s = unicode(v)
    if r.random() < 0.35 and s:
        i = r.randrange(len(s) + 1)
        k = r.randrange(3)
        if k == 0:
            s = s[:i] + r.choice(u'0-.+eE: xTZ\'\u0663') + s[i:]
        elif k == 1:
            s = s[:i] + s[i + 1:]
        else:
            s = s[:i] + r.choice('0-.:gG') + s[i + 1:]
    s = unicode(s)
    m.key((name, s))
    m.sample((name, s))
    want = valid(name, s)
    v = newvalue(name)
    try:
        v.SetFromLiteral(s)
        got = True
    except ValueError:
        got = False
    if want is None:
        m.count('open')
        return
    if not m.check(got == want, 'literal-verdict', name, repr(s), got, repr(v.value)):
        return
    m.count('accepted' if want else 'refused')
    if want:
        expect(m, name, v, decode(name, s), 'literal-read', (name, s))


NUMERIC = ['Byte', 'SByte', 'Int16', 'Int32', 'Int64', 'Single', 'Double', 'Decimal', 'Boolean']


def f_coerce(m, r):
    """Values set from any Python number or related object"""
    k = r.random()
    if k < 0.7:
        name = r.choice(NUMERIC)
        x = r.choice([0, 1, -1, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 2 ** 31 - 1, 2 ** 31,
                      -2 ** 31, -2 ** 31 - 1, 2 ** 63 - 1, 2 ** 63, -2 ** 63, -2 ** 63 - 1, 10 ** 29 - 1, 10 ** 29, 1 - 10 ** 29, 2 ** 127, 2 ** 128,
                      r.randint(-300, 300), r.randint(-10 ** 10, 10 ** 10)])
        form = r.choice(['int', 'float', 'decimal', 'decimalfrac', 'floatfrac'])
        if form == 'float':
            arg = float(x)
        elif form == 'decimal':
            arg = decimal.Decimal(x)
        elif form == 'decimalfrac':
            arg = decimal.Decimal('%d.%s' % (x, r.choice(['5', '999', '000001', '25'])))
        elif form == 'floatfrac':
            arg = x + r.choice([0.5, -0.5, 0.25, 0.999])
        else:
            arg = x
        exact = BigDecimal(str(decimal.Decimal.from_float(arg)) if type(arg) is float else str(arg))
        v = newvalue(name)
        m.key((name, repr(arg)))
        try:
            v.SetFromValue(arg)
            got = True
        except (ValueError, TypeError):
            got = False
        if name == 'Boolean':
            m.check(got and v.value is (exact.signum() != 0), 'number-to-boolean', repr(arg), repr(v.value))
        elif name in RANGES:
            lo, hi = RANGES[name]
            ok = exact.compareTo(BigDecimal(str(lo))) >= 0 and exact.compareTo(BigDecimal(str(hi))) <= 0
            if m.check(got == ok, 'number-range', name, repr(arg), got, repr(v.value)) and ok:
                m.check(str(v.value) == str(exact.toBigInteger()), 'number-rounding', name, repr(arg), repr(v.value))
        elif name == 'Decimal':
            ok = exact.abs().compareTo(BigDecimal('9' * 29)) <= 0
            if exact.abs().compareTo(BigDecimal('9' * 29)) > 0 and exact.abs().compareTo(BigDecimal('1' + '0' * 29)) < 0:
                return
            if m.check(got == ok, 'decimal-range', repr(arg), got) and ok:
                m.check(BigDecimal(str(v.value)).compareTo(exact) == 0, 'decimal-exact', repr(arg), repr(v.value))
        else:
            ok = exact.abs().compareTo(BigDecimal(MAXS if name == 'Single' else MAXD)) <= 0
            if m.check(got == ok, 'float-range', name, repr(arg), got) and ok:
                m.check(v.value == exact.doubleValue(), 'float-exact', repr(arg), repr(v.value))
        m.count('numbers')
        return
    if k < 0.8:
        # the plain constructor picks the type from the value
        mv = None
        name = r.choice(['Boolean', 'Double', 'String', 'Guid', 'Decimal', 'DateTime', 'DateTimeOffset', 'Time', 'Int64'])
        mv = model(r, name)
        arg = native(name, mv)
        m.key((name, mv))
        if name == 'Int64':
            arg = int(arg)
            if type(arg) is long:
                name = 'Decimal'
                mv = str(arg)
        v = edm.EDMValue.NewSimpleValueFromValue(arg)
        expect(m, name, v, mv, 'from-python', (name, mv))
        m.count('from_python')
        return
    name = r.choice(['DateTime', 'DateTime', 'DateTimeOffset', 'Time', 'Guid', 'String', 'DateTime'])
    mv = model(r, name)
    v = newvalue(name)
    m.key((name, mv))
    m.count('from_objects')
    if name == 'Guid':
        u = uuid.UUID(hex=mv)
        v.SetFromValue(r.choice([u.bytes, mv, unicode(mv), mv.upper(), u]))
        expect(m, name, v, mv, 'guid-from-string', mv)
    elif name == 'String':
        x = r.choice([5, True, 'ascii', decimal.Decimal('1.50'), uuid.UUID(int=5)])
        v.SetFromValue(x)
        expect(m, name, v, unicode(str(x)), 'string-from-object', repr(x))
    elif name == 'Time':
        secs = r.choice([0, 1, 59, 60, 3599, 3600, 86399, r.randrange(86400), 86400, 90000, -1, 0.25, 86399.75, r.randrange(86400) + 0.5])
        arg = r.choice([secs, float(secs), decimal.Decimal(str(secs))])
        m.key((name, repr(arg)))
        try:
            v.SetFromValue(arg)
            got = True
        except (ValueError, TypeError):
            got = False
        if m.check(got == (0 <= secs < 86400), 'time-from-number', repr(arg), got) and got:
            w = int(secs)
            expect(m, name, v, (w // 3600, w // 60 % 60, w % 60, int((secs - w) * 10 ** 7)), 'time-from-number', repr(arg))
    else:
        k = r.random()
        if k < 0.4 and name == 'DateTime':
            us = r.choice([0, 1, 999999, r.randrange(10 ** 6)])
            v.SetFromValue(datetime.datetime(*(mv[:6] + (us,))))
            expect(m, name, v, mv[:6] + (us * 10,), 'from-datetime', (mv, us))
        elif k < 0.8:
            secs = r.choice([0, 1, 86399, 86400, 951782400, 2 ** 31, r.randrange(4 * 10 ** 9)]) + r.choice([0, 0.5, 0.25])
            v.SetFromValue(r.choice([secs, float(secs), decimal.Decimal(str(secs))]))
            d = datetime.datetime(1970, 1, 1) + datetime.timedelta(days=int(secs) // 86400, seconds=int(secs) % 86400)
            w = (d.year, d.month, d.day, d.hour, d.minute, d.second, int((secs - int(secs)) * 10 ** 7))
            expect(m, name, v, w + ((0,) if name == 'DateTimeOffset' else ()), 'from-unixtime', (name, secs))
        elif name == 'DateTime':
            # the zone is dropped without conversion
            z = rzone(r)
            v.SetFromValue(native('DateTimeOffset', mv + (z,)))
            expect(m, name, v, mv, 'zone-dropped', (mv, z))
        else:
            m.raises(ValueError, 'offset-without-zone', v.SetFromValue, native('DateTime', mv[:7]))


NUMS = ['Byte', 'Int16', 'Int32', 'Int64', 'Decimal', 'Single', 'Double']


def f_cast(m, r):
    """Casts and promotion"""
    a, b = r.choice(NAMES), r.choice(NAMES)
    if r.random() < 0.6:
        a, b = r.choice(NUMS), r.choice(NUMS)
    mv = model(r, a)
    m.key((a, b, mv))
    ta, tb = getattr(T, a), getattr(T, b)
    # promotion: symmetric, the widest of the two, only among numbers
    try:
        p = core.PromoteTypes(ta, tb)
    except core.EvaluationError:
        p = 'error'
    if a == b:
        want = ta
    elif a in NUMS and b in NUMS:
        want = getattr(T, NUMS[max(NUMS.index(a), NUMS.index(b))])
    elif 'SByte' in (a, b) and (a in NUMS or b in NUMS):
        want = p
    else:
        want = 'error'
    m.eq(p, want, 'promotion', a, b)
    m.check(core.PromoteTypes(ta, None) == ta and core.PromoteTypes(None, tb) == tb, 'promotion-null', a, b)
    v = newvalue(a)
    v.SetFromValue(native(a, mv))
    if want in ('error', None):
        try:
            v.SimpleCast(tb)
        except REFUSED:
            pass
        expect(m, a, v, mv, 'cast-changed-source', (a, b, mv))
        return
    if a == 'SByte' or b == 'SByte':
        return
    pn = [n for n in NAMES if getattr(T, n) == want][0]
    try:
        w = v.SimpleCast(want)
        got = True
    except REFUSED:
        got = False
    if pn == a:
        m.check(got, 'cast-same', a, mv)
        expect(m, a, w, mv, 'cast-same', (a, mv))
    elif a in RANGES and pn in RANGES or pn == 'Decimal' and a in RANGES:
        if m.check(got, 'cast-widening', a, pn, mv):
            expect(m, pn, w, mv if pn in RANGES else str(mv), 'cast-widening', (a, pn, mv))
    elif pn in ('Double', 'Single'):
        if a in RANGES or a == 'Decimal':
            if m.check(got, 'cast-float', a, pn, mv):
                m.check(w.value == BigDecimal(str(mv)).doubleValue(), 'cast-float', a, pn, mv, repr(w.value))
        elif a == 'Single':
            if m.check(got, 'cast-single', mv):
                m.check(samefloat(w.value, mv), 'cast-single', mv, repr(w.value))
    expect(m, a, v, mv, 'cast-changed-source', (a, b, mv))
    m.count('casts')
    # the target is a new value
    if got:
        w.SetNull()
        expect(m, a, v, mv, 'cast-shared', (a, b, mv))


def mktype(r, depth, pool):
    c = edm.ComplexType(None)
    c.name = 'C%d' % len(pool)
    pool.append(c)
    used = set()
    for i in range(r.randint(1, 4)):
        n = r.choice(['A', 'B', 'C', 'D', 'E', 'F'])
        if n in used:
            continue
        used.add(n)
        p = edm.Property(c)
        p.name = n
        if depth and r.random() < 0.35:
            p.simpleTypeCode = None
            p.complexType = mktype(r, depth - 1, pool)
        else:
            p.simpleTypeCode = getattr(T, r.choice(['Int32', 'String', 'Double', 'DateTime', 'Guid', 'Binary']))
        c.Property.append(p)
    return c


def mkvalue(ct):
    p = edm.Property(None)
    p.name = 'Top'
    p.simpleTypeCode = None
    p.complexType = ct
    return p()


def fill(r, cv):
    out = {}
    for k, v in cv.iteritems():
        if isinstance(v, edm.Complex):
            out[k] = fill(r, v)
        else:
            name = [n for n in NAMES if getattr(T, n) == v.typeCode][0]
            if r.random() < 0.2:
                v.SetNull()
                out[k] = (name, None)
            else:
                mv = model(r, name)
                if name == 'DateTime':
                    mv = mv[:6] + (0,)
                v.SetFromValue(native(name, mv))
                out[k] = (name, mv)
    return out


def agree(m, cv, want, mech, ctx):
    m.check(len(cv) == len(want) and set(cv.keys()) == set(want), mech + '-keys', cv.keys(), ctx)
    for k, v in cv.iteritems():
        if isinstance(v, edm.Complex):
            if m.check(isinstance(want[k], dict), mech, k, ctx):
                agree(m, v, want[k], mech, ctx)
        else:
            name, mv = want[k]
            if mv is None:
                m.check(v.value is None, mech + '-null', k, repr(v.value), ctx)
            else:
                expect(m, name, v, mv, mech, (k, ctx))


def f_complex(m, r):
    """Complex values keep every nested property"""
    pool = []
    ct = mktype(r, 3, pool)
    a = mkvalue(ct)
    want = fill(r, a)
    m.key(repr(want))
    agree(m, a, want, 'complex-set', want)
    b = mkvalue(ct)
    fill(r, b)
    b.SetFromComplex(a)
    agree(m, b, want, 'complex-copy', want)
    # later changes stay apart
    keep = fill(r, a)
    agree(m, b, want, 'complex-shared', want)
    m.count('nested' if any(isinstance(v, dict) for v in want.values()) else 'flat')
    # JSON
    js = '{%s}' % core.EntityCTBody(b)
    c = mkvalue(ct)
    fill(r, c)
    core.ReadEntityCTInJSON(c, json.loads(js))
    agree(m, c, want, 'complex-json', js)
    c = mkvalue(ct)
    core.ReadEntityCTInJSON2(c, json.loads(core.EntityCTInJSON2(b)))
    agree(m, c, want, 'complex-json2', js)
    # a property that is not mentioned is NULL
    obj = json.loads(js)
    simple = [k for k in want]
    gone = r.choice(simple)
    del obj['Top'][gone]
    fill(r, c)
    core.ReadEntityCTInJSON(c, obj)
    w2 = dict(want)

    def nulls(x):
        return dict((k, nulls(v)) for k, v in x.items()) if isinstance(x, dict) else (x[0], None)
    w2[gone] = nulls(want[gone])
    agree(m, c, w2, 'complex-json-missing', js, )
    # XML
    doc = core.Document(root=core.Property)
    doc.root.SetXMLName((core.ODATA_DATASERVICES_NAMESPACE, 'Top'))
    doc.root.SetValue(b)
    out = str(doc)
    back = core.Document()
    back.Read(src=out)
    c = mkvalue(ct)
    fill(r, c)
    back.root.GetValue(c)
    agree(m, c, want, 'complex-xml', out)
    # partly overlapping types: shared names are taken, others stay
    pool = []
    other = mktype(r, 2, pool)
    o = mkvalue(other)
    ow = fill(r, o)

    def clash(x, y):
        for k in x:
            if k in y:
                if isinstance(x[k], dict) != isinstance(y[k], dict):
                    return True
                if isinstance(x[k], dict):
                    if clash(x[k], y[k]):
                        return True
                elif x[k][0] != y[k][0]:
                    return True
        return False

    def merge(x, y):
        return dict((k, merge(x[k], y[k]) if isinstance(x[k], dict) and k in y else y.get(k, x[k])) for k in x)
    if not clash(ow, want):
        o.SetFromComplex(b)
        agree(m, o, merge(ow, want), 'complex-overlap', (ow, want))
        m.count('overlaps')


class Named(object):
    def __init__(self, name):
        self.name = name


class Scope(edm.NameTableMixin):
    def __init__(self, name):
        edm.NameTableMixin.__init__(self)
        self.name = name


def f_names(m, r):
    """Name tables behave as nested dictionaries"""
    top = Scope('')
    model_ = {}
    parts = ['A', 'B', 'C', 'A.B', 'B.C', 'A.B.C', 'D', 'AB']
    hist = []
    for i in range(r.randint(1, 12)):
        n = r.choice(parts)
        if r.random() < 0.75:
            val = Scope(n) if r.random() < 0.4 else Named(n)
            sub = {}
            if isinstance(val, Scope):
                for k in r.sample(parts, r.randrange(4)):
                    try:
                        sub[k] = Named(k)
                        val.Declare(sub[k])
                    except edm.IncompatibleNames:
                        del sub[k]
            clash = n in model_ or any(k.startswith(n + '.') or n.startswith(k + '.') for k in model_)
            hist.append(('+', n, clash))
            if clash:
                m.raises((edm.DuplicateName, edm.IncompatibleNames), 'name-clash', top.Declare, val, ctx=hist)
            else:
                top.Declare(val)
                model_[n] = (val, sub)
        else:
            hist.append(('-', n))
            if n in model_:
                top.Undeclare(model_.pop(n)[0])
            else:
                m.raises(KeyError, 'undeclare', top.Undeclare, Named(n), ctx=hist)
    m.key(repr(hist))
    want = {}
    for n, (v, sub) in model_.items():
        want[n] = v
        for k, x in sub.items():
            want[n + '.' + k] = x
    m.check(sorted(top) == sorted(want), 'name-keys', sorted(top), sorted(want))
    m.eq(len(top), len(want), 'name-len', hist)
    for n, v in want.items():
        m.check(n in top and top[n] is v, 'name-lookup', n, hist)
    for n in parts + ['Z', 'A.Z', 'A.B.Z', '', '.', 'A.']:
        if n not in want:
            m.check(n not in top, 'name-contains', n, hist)
            m.raises(KeyError, 'name-missing', top.__getitem__, n)
            m.check(top.get(n, 5) == 5, 'name-get', n, hist)
    m.count('names', len(want))


FAMILIES = [
    Family('forms', f_forms, 6000, 80000, {'values': 5000, 'uri_literals': 5000, 'json_dates': 300, 'raw_uri': 400, 'type_Decimal': 150, 'type_Time': 150}),
    Family('null', f_null, 2500, 30000, {'nulls': 2000, 'refused_values': 700}),
    Family('literals', f_literals, 6000, 80000, {'accepted': 1500, 'refused': 1500}),
    Family('coerce', f_coerce, 5000, 60000, {'numbers': 2000, 'from_python': 200, 'from_objects': 300}),
    Family('cast', f_cast, 3000, 40000, {'casts': 800}),
    Family('complex', f_complex, 1200, 15000, {'nested': 200, 'overlaps': 150}),
    Family('names', f_names, 1500, 20000, {'names': 2000}),
]
