"""X04 character classes, XSD datatypes and XSD regular expressions"""

import re
import math
from lib import Family, text
import java.lang
from java.lang import Character, Double, ProcessBuilder
from java.io import BufferedReader, InputStreamReader
from java.math import BigDecimal, RoundingMode, BigInteger
import pyslet.unicode5 as u5
import pyslet.iso8601 as iso
import pyslet.xml20081126.structures as xml
import pyslet.xsdatatypes20041028 as xsi
from pyslet.unicode5 import CharClass

PROPERTY = 'X04'
MAX = 0x10ffff
ISLANDS = [range(0, 16), range(0x28, 0x40), range(0x58, 0x64), [0x7a, 0x7b, 0x7d], [0xd7fe, 0xd7ff, 0xd800, 0xdfff, 0xe000, 0xe001],
           [0xfffd, 0xfffe, 0xffff, 0x10000, 0x10001, 0x10002], [MAX - 2, MAX - 1, MAX]]
POOL = sorted(sum([list(i) for i in ISLANDS], []))
PROBES = sorted(set(p for q in POOL for p in (q - 1, q, q + 1) if 0 <= p <= MAX))
GLOBALS = {}


def setup(m):
    CharClass.UCDCategory(u'L')
    CharClass.UCDBlock(u'Basic Latin')
    for k, c in u5.UCDCategories.items():
        GLOBALS['cat:' + k] = (c, repr(c))
    for k, c in u5.UCDBlocks.items():
        GLOBALS['block:' + k] = (c, repr(c))
    for k in ('sClass', 'SClass', 'iClass', 'IClass', 'CClass', 'dClass', 'DClass', 'WClass', 'wClass', 'NameCharClass', 'LetterCharClass'):
        c = getattr(xsi, k)
        GLOBALS[k] = (c, repr(c))
    P = xsi.RegularExpressionParser
    GLOBALS['DotClass'] = (P.DotClass, repr(P.DotClass))
    GLOBALS['IsBlockClass'] = (P.IsBlockClass, repr(P.IsBlockClass))


def shared_ok(m, ctx):
    for k, (c, was) in GLOBALS.items():
        if k in ('cat:Lo', 'cat:L', 'cat:Cn', 'cat:C') and m.rng_heavy:
            continue
        if len(c.ranges) < 40 or not m.rng_heavy:
            m.check(repr(c) == was, 'shared-class', k, 'was changed by', ctx)


def finish(m):
    m.rng_heavy = False
    shared_ok(m, 'run')


# -- class arithmetic ---------------------------------------------------------

def probe(c):
    return [p for p in PROBES if c.Test(unichr(p))]


def pick(r):
    return r.choice(r.choice(ISLANDS))


def operate(m, r, c, s, hist):
    """one random operation on class c, returning the new model (frozen set of probes)"""
    op = r.randrange(9)
    if op < 3:
        a, z = pick(r), (pick(r) if r.random() < 0.5 else None)
        if z is None:
            isl = r.choice(ISLANDS)
            a, z = r.choice(isl), r.choice(isl)
        hist.append((('add', 'sub')[op % 2], a, z))
        if op % 2 == 0:
            if r.random() < 0.2:
                c.AddRange(unichr(a), unichr(z))
            else:
                c.AddRange(unichr(min(a, z)), unichr(max(a, z)))
            return s | set(p for p in PROBES if min(a, z) <= p <= max(a, z))
        c.SubtractRange(unichr(a), unichr(z))
        return s - set(p for p in PROBES if min(a, z) <= p <= max(a, z))
    elif op < 6:
        a = pick(r)
        hist.append((('addc', 'subc')[op % 2], a))
        if op % 2 == 0:
            c.AddChar(unichr(a))
            return s | set([a])
        c.SubtractChar(unichr(a))
        return s - set([a])
    elif op == 6:
        hist.append(('neg',))
        c.Negate()
        return set(PROBES) - s
    else:
        d, t = build(m, r, r.randrange(5), hist)
        before = repr(d)
        hist.append(('addcls', 'subcls')[op - 7])
        if op == 7:
            c.AddClass(d)
            s = s | t
        else:
            c.SubtractClass(d)
            s = s - t
        m.check(repr(d) == before, 'class:operand', before, repr(d))
        m.alias.append((d, before))
        return s


def build(m, r, n, hist):
    kind = r.randrange(4)
    if kind == 0:
        c, s = CharClass(), set()
    elif kind == 1:
        cs = [pick(r) for i in range(r.randrange(1, 5))]
        cs = [x for x in cs if not 0xd800 <= x < 0xe000] or [0x2a]
        c, s = CharClass(u''.join(unichr(x) for x in cs)), set(cs)
        hist.append(('str', cs))
    elif kind == 2:
        a, z = sorted([pick(r), pick(r)])
        c, s = CharClass(r.choice([(unichr(a), unichr(z)), [unichr(a), unichr(z)]])), set(p for p in PROBES if a <= p <= z)
        hist.append(('range', a, z))
    else:
        d, t = build(m, r, min(n, 2), hist)
        m.alias.append((d, repr(d)))
        c, s = CharClass(d), set(t)
        hist.append(('copy',))
    hist.append(('(', n))
    for i in range(n):
        s = operate(m, r, c, s, hist)
    hist.append(')')
    return c, s


def fam_class(m, r):
    m.alias = []
    hist = []
    c, s = build(m, r, r.randrange(1, 9), hist)
    m.key(hist)
    m.sample(text(hist, 300))
    got = set(probe(c))
    m.check(got == s, 'class:members', 'wrong', sorted(got ^ s)[:8], hist, repr(c))
    m.check(not c.Test(None), 'class:none')
    for d, before in m.alias:
        m.check(repr(d) == before, 'class:aliased', before, repr(d), hist)
    m.count('classes')
    m.count('ranges', len(c.ranges))
    # the same set built any other way is the same class
    segs, start = [], None
    for p in PROBES + [MAX + 2]:
        if p in s:
            if start is None:
                start = p
            last = p
        elif start is not None:
            segs.append((start, last))
            start = None
    # probes leave gaps: a segment may run over the gap between islands only if the whole gap is in the class
    parts = []
    for a, z in segs:
        mid = [p for p in PROBES if a < p <= z]
        mid = r.sample(mid, min(len(mid), r.randrange(3)))
        lo = a
        for p in sorted(mid):
            parts.append((lo, p - 1))
            lo = p
        parts.append((lo, z))
    r.shuffle(parts)
    d = CharClass()
    for a, z in parts:
        if a == z and r.random() < 0.6:
            d.AddChar(unichr(a))
        else:
            d.AddRange(unichr(a), unichr(z))
    m.check(c == d, 'class:equal', hist, repr(c), repr(d))
    if c.ranges:
        m.check(not (c == CharClass()), 'class:unequal', repr(c))
    n = CharClass(c)
    n.Negate()
    if any(0xd800 <= ord(x) < 0xe000 for g in c.ranges + n.ranges for x in g):
        return  # the platform can not print these
    e = eval(repr(c), dict(CharClass=CharClass))
    m.check(e == c and set(probe(e)) == s, 'class:repr', repr(c))
    # as python expressions
    p1 = re.compile(u'(?:%s)\\Z' % unicode(c))
    p2 = c.ranges and re.compile(u'[%s]\\Z' % c.FormatRe())
    for p in PROBES:
        if 0xd800 <= p < 0xe000:
            continue
        m.check((p1.match(unichr(p)) is not None) == (p in s), 'class:expression', hex(p), unicode(c), hist)
        if p2:
            m.check((p2.match(unichr(p)) is not None) == (p in s), 'class:formatre', hex(p), c.FormatRe(), hist)


# -- the Unicode database -----------------------------------------------------

CATS = {'Lu': 'UPPERCASE_LETTER', 'Ll': 'LOWERCASE_LETTER', 'Lt': 'TITLECASE_LETTER', 'Lm': 'MODIFIER_LETTER', 'Lo': 'OTHER_LETTER',
        'Mn': 'NON_SPACING_MARK', 'Mc': 'COMBINING_SPACING_MARK', 'Me': 'ENCLOSING_MARK', 'Nd': 'DECIMAL_DIGIT_NUMBER', 'Nl': 'LETTER_NUMBER', 'No': 'OTHER_NUMBER',
        'Pc': 'CONNECTOR_PUNCTUATION', 'Pd': 'DASH_PUNCTUATION', 'Ps': 'START_PUNCTUATION', 'Pe': 'END_PUNCTUATION', 'Pi': 'INITIAL_QUOTE_PUNCTUATION', 'Pf': 'FINAL_QUOTE_PUNCTUATION', 'Po': 'OTHER_PUNCTUATION',
        'Zs': 'SPACE_SEPARATOR', 'Zl': 'LINE_SEPARATOR', 'Zp': 'PARAGRAPH_SEPARATOR', 'Sm': 'MATH_SYMBOL', 'Sc': 'CURRENCY_SYMBOL', 'Sk': 'MODIFIER_SYMBOL', 'So': 'OTHER_SYMBOL',
        'Cc': 'CONTROL', 'Cf': 'FORMAT', 'Cs': 'SURROGATE', 'Co': 'PRIVATE_USE', 'Cn': 'UNASSIGNED'}
BYTYPE = dict((getattr(Character, v), k) for k, v in CATS.items())
# characters whose category Unicode itself has changed since the table was made
CHANGED = [(0x10d0, 0x10ff), (0x13a0, 0x13f5), (0x19b0, 0x19c9), (0x1a1b, 0x1a1b), (0x1bac, 0x1bad), (0xa9bd, 0xa9bd), (0x2308, 0x230b), (0x1cf2, 0x1cf3), (0x1885, 0x1886),
           (0xfd3e, 0xfd3f), (0x166d, 0x166d), (0x180e, 0x180e), (0xfffe, 0xffff)]


def fam_ucd(m, r):
    """a window of the basic plane"""
    base = m.index % 512 * 128
    m.key(base)
    m.sample('%04X-%04X' % (base, base + 127))
    minor = [k for k in u5.UCDCategories if len(k) == 2]
    for cp in range(base, base + 128):
        if any(a <= cp <= z for a, z in CHANGED) or 0xd800 <= cp < 0xe000:
            continue
        c = unichr(cp)
        want = BYTYPE[Character.getType(cp)]
        got = [k for k in minor if CharClass.UCDCategory(k).Test(c)]
        m.check(len(got) == 1, 'ucd:exclusive', hex(cp), got)
        if got != ['Cn'] and want != 'Cn':
            m.eq(got, [want], 'ucd:category', hex(cp))
            m.count('characters')
        for k in got:
            for major in 'LMNPZSC':
                m.check(CharClass.UCDCategory(major).Test(c) == (major == k[0]), 'ucd:major', hex(cp), major, k)
    for name in u5.UCDBlocks.keys():
        b = CharClass.UCDBlock(name)
        m.eq(len(b.ranges), 1, 'ucd:block-range', name)
        a, z = ord(b.ranges[0][0]), ord(b.ranges[0][1])
        if not (base <= a < base + 128) and m.index % 40:
            continue
        jb = Character.UnicodeBlock.of(a)
        if 0xd800 <= a < 0xe000 or jb is None:
            continue
        m.eq(z % 16, 15, 'ucd:block-end', name, hex(z))
        for cp in (a, z, (a + z) // 2, r.randrange(a, z + 1)):
            m.check(Character.UnicodeBlock.of(cp) == jb, 'ucd:block', name, hex(cp))
        if a > 0:
            m.check(Character.UnicodeBlock.of(a - 1) != jb, 'ucd:block-start', name)
        if z < MAX:
            m.check(Character.UnicodeBlock.of(z + 1) != jb, 'ucd:block-stop', name)
        try:
            jn = Character.UnicodeBlock.forName(name)
        except java.lang.IllegalArgumentException:
            jn = None
        if jn is not None:
            m.check(jn == jb, 'ucd:block-name', name, jn)
            v = u''.join(r.choice([ch, ch.upper(), ch, ch + r.choice(u' _-')]) for ch in name)
            m.check(CharClass.UCDBlock(v) is b, 'ucd:block-spelling', v)
            m.count('blocks')


# -- datatypes ----------------------------------------------------------------

def junk(r, s, alphabet):
    """a small corruption of s"""
    for i in range(r.choice([1, 1, 2])):
        k = r.randrange(len(s) + 1)
        op = r.randrange(3)
        if op == 0:
            s = s[:k] + r.choice(alphabet) + s[k:]
        elif op == 1:
            s = s[:k] + s[k + 1:]
        else:
            s = s[:k] + r.choice(alphabet) + s[k + 1:]
    return s


NUM = u'0123456789+-.eE \t,INFaxX_\u0663\uff11\xb2lL'
DEC = re.compile(u'[+-]?([0-9]+(\\.[0-9]*)?|\\.[0-9]+)\\Z')
INT = re.compile(u'[+-]?[0-9]+\\Z')
DBL = re.compile(u'[+-]?([0-9]+(\\.[0-9]*)?|\\.[0-9]+)([eE][+-]?[0-9]+)?\\Z')


def digits(r, n):
    return u''.join(r.choice(u'0123456789') for i in range(n))


def literal(r, exp):
    s = r.choice([u'', u'', u'-', u'+'])
    k = r.randrange(5)
    if k == 0:
        s += digits(r, r.choice([1, 2, 9, 10, 11, 18, 19, 20, 30]))
    elif k == 1:
        s += digits(r, r.choice([1, 5, 17])) + u'.' + digits(r, r.choice([0, 1, 3, 16, 25]))
    elif k == 2:
        s += u'.' + digits(r, r.choice([1, 3, 17, 30]))
    elif k == 3:
        s += r.choice([u'2147483647', u'2147483648', u'9223372036854775807', u'9223372036854775808', u'9007199254740993', u'0', u'00', u'0.0', u'0.1', u'1.1', u'4.35'])
    else:
        s += digits(r, 1) + u'.' + digits(r, r.randrange(1, 18))
    if exp and r.random() < 0.7:
        s += r.choice(u'eE') + r.choice([u'', u'-', u'+']) + r.choice([u'0', u'1', u'5', u'007', u'22', u'100', u'300', u'307', u'308', u'309', u'310', u'324', u'330', u'1000'])
    return s


def bits(x):
    return Double.doubleToLongBits(Double(x))


def randf(r):
    k = r.randrange(6)
    if k == 0:
        return float(r.choice([0.5, 0.1, 0.3, 0.005, 1e-5, 1e5, 123456.789, 9.99999999999, 0.99999999999, 1e22, 1e23, 4.9e-324, 1.7976931348623157e308, 2.2250738585072014e-308, 1e308, 9.5, 99.5, 0.95, 2.85, 1.005, 2.5]))
    if k == 1:
        return r.randrange(1, 10 ** r.randrange(1, 18)) / 10.0 ** r.randrange(0, 12)
    if k == 2:
        return float(r.randrange(1, 10 ** r.randrange(1, 20)))
    if k == 3:
        return r.random() * 10.0 ** r.randrange(-300, 300)
    if k == 4:
        return 10.0 ** r.randrange(-320, 309)
    v = Double.longBitsToDouble(r.getrandbits(63))
    return 1.5 if v != v or v in (float('inf'),) else abs(v)


CANON_DEC = re.compile(u'-?(0|[1-9][0-9]*)\\.([0-9]*[1-9]|0)\\Z')
CANON_DBL = re.compile(u'-?([1-9]\\.([0-9]*[1-9]|0)|0\\.0)E(-?[1-9][0-9]*|0)\\Z')
DIG = xsi.float_info.dig


def shortest(v):
    return BigDecimal(repr(v))


def fam_number(m, r):
    k = m.index % 6
    if k == 0:
        s = literal(r, False)
        if r.random() < 0.5:
            s = junk(r, s, NUM)
        m.key((k, s))
        m.sample(s)
        if DEC.match(s):
            m.eq(bits(xsi.DecodeDecimal(s)), Double.doubleToLongBits(BigDecimal(s if not s.endswith(u'.') else s[:-1]).doubleValue()) if BigDecimal(s.rstrip(u'.')).signum() else bits(-0.0 if s[0] == '-' else 0.0), 'decimal:decode', s)
            m.count('literals')
        else:
            m.raises(ValueError, 'decimal:refuse', xsi.DecodeDecimal, s)
        if INT.match(s):
            m.eq(BigInteger(str(xsi.DecodeInteger(s))), BigInteger(s.lstrip(u'+')), 'integer:decode', s)
            m.check(type(xsi.DecodeInteger(s)) in (int, long), 'integer:type', s)
        else:
            m.raises(ValueError, 'integer:refuse', xsi.DecodeInteger, s)
    elif k == 1:
        s = literal(r, True)
        if r.random() < 0.4:
            s = junk(r, s, NUM)
        m.key((k, s))
        m.sample(s)
        if DBL.match(s):
            want = Double.parseDouble(s)
            m.eq(bits(xsi.DecodeDouble(s)), bits(want), 'double:decode', s)
            f = xsi.DecodeFloat(s)
            if abs(want) >= 2.0 ** 128:
                want = float('inf') if want > 0 else float('-inf')
            elif abs(want) <= 2.0 ** -149:
                want = 0.0
                f = abs(f)
            m.eq(bits(f), bits(want), 'float:decode', s)
            m.count('literals')
        elif s.lower() not in (u'inf', u'-inf', u'nan'):
            m.raises(ValueError, 'double:refuse', xsi.DecodeDouble, s)
            m.raises(ValueError, 'float:refuse', xsi.DecodeFloat, s)
    elif k == 2:
        v = randf(r) * r.choice([1, -1])
        if r.random() < 0.1:
            v = r.choice([0, 1, -7, 10 ** 9, 0.0, -0.0, 2 ** 62, -2 ** 70])
        m.key((k, repr(v)))
        m.sample(repr(v))
        s = xsi.EncodeDouble(v)
        m.require(CANON_DBL.match(s) is not None, 'double:canonical', repr(v), s)
        want = shortest(float(v)) if v else BigDecimal(0)
        if v:
            q = want.round(java.math.MathContext(DIG - 1, RoundingMode.HALF_UP))
            m.check(q.compareTo(BigDecimal(s)) == 0, 'double:encode', repr(v), s, q)
            w = xsi.DecodeDouble(s)
            if 1e-300 < abs(v) < 1e308:
                m.check(abs(w - float(v)) <= abs(float(v)) * 10.0 ** (2 - DIG), 'double:roundtrip', repr(v), s, repr(w))
        else:
            m.eq(s, u'0.0E0', 'double:zero')
        m.check(v == 0 or (s[0] == '-') == (v < 0), 'double:sign', s, repr(v))
        f = xsi.EncodeFloat(v)
        m.eq(f, (u'INF' if v > 0 else u'-INF') if abs(v) >= 2.0 ** 128 else u'0.0E0' if abs(v) <= 2.0 ** -149 else s, 'float:encode', repr(v))
        m.count('encoded')
    elif k == 3:
        v = randf(r) * r.choice([1, -1])
        m.key((k, repr(v)))
        m.sample(repr(v))
        s = xsi.EncodeDecimal(v)
        m.require(CANON_DEC.match(s) is not None, 'decimal:canonical', repr(v), s)
        w = BigDecimal(s)
        err = w.subtract(shortest(v)).abs()
        # at least DIG-1 significant digits are kept, or one decimal place
        lim = shortest(v).abs().movePointLeft(DIG - 2)
        m.check(err.compareTo(lim) <= 0, 'decimal:encode', repr(v), s, err)
        m.eq(s[0] == '-', v < 0, 'decimal:sign', s)
        m.check(abs(v) > 1e308 or abs(xsi.DecodeDecimal(s) - v) <= abs(v) * 10.0 ** (2 - DIG), 'decimal:roundtrip', repr(v), s)
        m.count('encoded')
    elif k == 4:
        # fixed digits
        v = r.choice([randf(r), r.randrange(100000) / 1000.0, r.randrange(1000) + 0.5, float(r.randrange(10))])
        if abs(v) > 1e15 or abs(v) < 1e-12:
            v = 12.345
        v = v * r.choice([1, 1, -1])
        n = r.randrange(0, 8)
        m.key((k, repr(v), n))
        m.sample((v, n))
        sd = shortest(v)
        s = xsi.EncodeDecimal(v, n, False)
        q = sd.setScale(n, RoundingMode.HALF_UP)
        if n and q.precision() <= DIG:
            m.check(re.match(u'-?[0-9]+\\.[0-9]{%d}\\Z' % n, s) is not None, 'decimal:places', repr(v), n, s)
            m.check(q.compareTo(BigDecimal(s)) == 0, 'decimal:rounded', repr(v), n, s, q)
        if n:
            s = xsi.EncodeDecimal(v, n)
            m.check(CANON_DEC.match(s) is not None or s == u'-0.0', 'decimal:strip', repr(v), n, s)
            if q.precision() <= DIG:
                m.check(q.compareTo(BigDecimal(s)) == 0, 'decimal:rounded-strip', repr(v), n, s, q)
        s = xsi.EncodeDouble(v, n, False)
        if v:
            q = sd.round(java.math.MathContext(n + 1, RoundingMode.HALF_UP))
            m.check(re.match(u'-?[1-9]%sE(-?[1-9][0-9]*|0)\\Z' % (u'' if n == 0 else u'\\.[0-9]{%d}' % n), s) is not None, 'double:places', repr(v), n, s)
            m.check(q.compareTo(BigDecimal(s)) == 0, 'double:rounded', repr(v), n, s, q)
        m.count('rounded')
    else:
        # the rest
        m.key((k, m.index), False)
        v = r.choice([float('inf'), float('-inf'), float('nan')])
        m.raises(ValueError, 'decimal:nonfinite', xsi.EncodeDecimal, v)
        for f, g in ((xsi.EncodeDouble, xsi.DecodeDouble), (xsi.EncodeFloat, xsi.DecodeFloat)):
            s = f(v)
            m.eq(s, u'NaN' if v != v else u'INF' if v > 0 else u'-INF', 'double:special')
            m.check(g(s) == v or (v != v and g(s) != g(s)), 'double:special-decode', s)
        s = r.choice([u'true', u'false', u'1', u'0'])
        m.eq(xsi.DecodeBoolean(s), s in u'true1' and s != u'', 'boolean:decode', s)
        m.eq(xsi.DecodeBoolean(xsi.EncodeBoolean(xsi.DecodeBoolean(s))), xsi.DecodeBoolean(s), 'boolean:roundtrip')
        t = junk(r, s, u'truefals01 TF')
        if t not in (u'true', u'false', u'1', u'0'):
            m.raises(ValueError, 'boolean:refuse', xsi.DecodeBoolean, t)
        m.eq(xsi.DecodeBoolean(None), None, 'boolean:none')
        n = r.randrange(-10 ** r.randrange(1, 30), 10 ** r.randrange(1, 30))
        m.eq(xsi.DecodeInteger(xsi.EncodeInteger(n)), n, 'integer:roundtrip', n)
        m.eq(xsi.EncodeInteger(n), unicode(BigInteger(str(n)).toString()), 'integer:encode', n)
        m.count('special')


class Fruit(xsi.Enumeration):
    decode = {u'apple': 1, u'Pear': 2, u'LIME': 3, u'Fig': 4, u'plum': 5}


xsi.MakeEnumeration(Fruit)


class Animal(xsi.Enumeration):
    decode = {u'cat': 1, u'dog': 2, u'elk': 3}


xsi.MakeEnumeration(Animal, u'dog')
xsi.MakeEnumerationAliases(Animal, {u'hound': u'dog', u'moose': u'elk'})


class Lower(xsi.Enumeration):
    decode = {u'Alpha': 1, u'betaGamma': 2, u'delta': 3, u'DELTA': 3}


Lower.decode = dict(Lower.decode)
del Lower.decode[u'DELTA']
xsi.MakeEnumeration(Lower)
xsi.MakeLowerAliases(Lower)
WS = [u' ', u'\n', u'\t', u'  ', u'\r\n', u' \t ']


def fam_enum(m, r):
    e = r.choice([Fruit, Animal, Lower])
    words = list(e.decode.keys())
    seq = [r.choice(words) for i in range(r.randrange(0, 7))]
    seq = [r.choice([w, w, w, w.upper(), w.lower(), w.capitalize(), w.swapcase()]) for w in seq]
    src = u''.join(r.choice(WS + [u'']) if i == 0 else u'' for i in [0]) + u''.join(w + r.choice(WS) for w in seq)
    m.key((e.__name__, src))
    m.sample(src)
    name, f, dec = r.choice([('v', lambda w: w, e.DecodeValue), ('l', lambda w: w.lower(), e.DecodeLowerValue), ('u', lambda w: w.upper(), e.DecodeUpperValue), ('t', lambda w: w.capitalize(), e.DecodeTitleValue)])
    vals = []
    for w in seq + [u'', u'zz', u'app', u'apple2']:
        x = f(w)
        if x in e.decode:
            m.eq(dec(r.choice([u'', u' ', u'\n']) + w + r.choice([u'', u' '])), e.decode[x], 'enum:decode', name, w)
            vals.append(e.decode[x])
            m.check(getattr(e, x) == e.decode[x], 'enum:constant', x)
        else:
            m.raises(ValueError, 'enum:refuse', dec, w)
            if w in seq:
                vals.append(None)
    if None in vals:
        m.raises(ValueError, 'enum:list-refuse', e.DecodeValueList, dec, src)
        m.raises(ValueError, 'enum:dict-refuse', e.DecodeValueDict, dec, src)
        return
    m.count('lists')
    m.eq(e.DecodeValueList(dec, src), vals, 'enum:list', src)
    want = {}
    for w, v in zip(seq, vals):
        want.setdefault(v, w)
    got = e.DecodeValueDict(dec, src)
    m.eq(got, want, 'enum:dict', src)
    s = e.EncodeValueList(vals)
    m.eq([e.DecodeValue(w) for w in s.split()], vals, 'enum:encode-list', s)
    s = e.EncodeValueDict(got)
    m.eq([e.DecodeValue(w) for w in s.split()], sorted(want), 'enum:encode-dict', s)
    m.eq(sorted(e.DecodeValue(w) for w in e.EncodeValueDict(got, False).split()), sorted(want), 'enum:encode-unsorted', s)
    for v in vals:
        m.eq(e.decode[e.EncodeValue(v)], v, 'enum:encode', v)
    m.eq(e.EncodeValue(None), u'dog' if e is Animal else None, 'enum:default')


def fam_text(m, r):
    s = u''.join(r.choice([u' ', u'\t', u'\n', u'\r', u'a', u'b', u'\xa0', u'\u2003', u'\u3000', u'\U0001f600', u'\x0b', u'\x85']) for i in range(r.randrange(0, 12)))
    m.key(s)
    m.sample(s)
    rep = u''.join(u' ' if c in u'\t\n\r' else c for c in s)
    m.eq(xsi.WhiteSpaceReplace(s), rep, 'space:replace', s)
    m.eq(xsi.WhiteSpaceCollapse(s), re.sub(u' +', u' ', rep).strip(u' '), 'space:collapse', s)
    # names
    n = u''.join(r.choice([u'a', u'Z', u'_', u':', u'-', u'.', u'0', u'\xe9', u'\u0663', u'\xb7', u'\xd7', u' ', u'\u4e2d', u'\u037e', u'/']) for i in range(r.randrange(0, 6)))
    ok = n != u'' and n[0] in START5 and all(c in NAME for c in n)
    if ok:
        m.eq(xsi.DecodeName(n), n, 'name:decode', n)
        m.eq(xsi.EncodeName(n), n, 'name:encode', n)
    else:
        m.raises(ValueError, 'name:refuse', xsi.DecodeName, n)
    for i in range(10):
        c = unichr(r.choice([r.randrange(1, 0x80), r.randrange(0x80, 0x400), r.randrange(0x400, 0xd800), r.randrange(0xe000, 0x10000), r.randrange(0x10000, MAX + 1),
                             r.choice([x[r.randrange(2)] for x in C5]) + r.choice([-1, 0, 1])]))
        if 0xd800 <= ord(c) < 0xe000:
            continue
        m.eq(bool(xml.IsNameStartChar(c)), c in START5, 'name:start', hex(ord(c)))
        m.eq(bool(xml.IsNameChar(c)), c in NAME, 'name:char', hex(ord(c)))
        m.eq(bool(xml.IsValidName(c + u'a')), c in START5, 'name:valid', hex(ord(c)))
        m.eq(bool(xml.IsValidName(u'a' + c)), c in NAME, 'name:valid', hex(ord(c)))
    # durations keep their sign
    d = u'P' + r.choice([u'1Y', u'2M', u'3D', u'1Y2M3DT4H5M6S', u'T1H', u'4W', u'1Y6M', u'T2.5S', u'DT1M'[1:] and u'1DT1M'])
    sign = r.choice([u'', u'-'])
    try:
        x = xsi.Duration(sign + d)
    except Exception as ex:
        m.violate('duration:decode', '%s %s' % (sign + d, text(ex)))
        return
    m.eq(x.sign, -1 if sign else 1, 'duration:sign', sign + d)
    y = iso.Duration(d)
    for z in (xsi.Duration(x), xsi.Duration(unicode(x))):
        m.check(z.sign == x.sign and unicode(z) == unicode(x), 'duration:roundtrip', sign + d, unicode(x), unicode(z))
    m.check(unicode(x).startswith(u'-') == bool(sign) and unicode(x).lstrip(u'-') == y.GetString(), 'duration:format', sign + d, unicode(x))
    m.eq(unicode(xsi.Duration(y)), y.GetString(), 'duration:plain')
    for bad in (u'', u'-', u'1Y', u'--P1Y', u'P', u'-1Y', u'X'):
        m.raises((ValueError, iso.DateTimeError), 'duration:refuse', xsi.Duration, bad)
    # dates
    t = u'%04d-%02d-%02dT%02d:%02d:%02d%s' % (r.randrange(1, 9999), r.randrange(1, 13), r.randrange(1, 29), r.randrange(24), r.randrange(60), r.randrange(60), r.choice([u'', u'Z', u'+01:00', u'-05:30']))
    p = xsi.DecodeDateTime(t)
    m.require(p is not None, 'datetime:decode', t)
    m.eq(xsi.EncodeDateTime(p), t, 'datetime:encode', t)
    m.check(xsi.DecodeDateTime(xsi.EncodeDateTime(p)) == p, 'datetime:roundtrip', t)


# -- regular expressions ------------------------------------------------------

LETTERS = u'abcxyzABZ\xe9\xdf\u03a9\u0436\u4e2d\u05d0'
DIGITS = u'0129\u0663\u0967'
PUNCT = u'.-_^$*+?{}()[]|\\/:,"#&~!=<>@ \t\n\r%;\''
OTHERS = u'\xb7\xd7\u20ac\u2028\u0301\xa0\u200b\xaa\u2160\xbd'
ALPHA = LETTERS + DIGITS + PUNCT + OTHERS
ASTRAL = u'\U0001f600\U00010400\ue000\U00020000'
START = set(LETTERS + u'_:Z')
N5 = [(0x3a, 0x3a), (0x41, 0x5a), (0x5f, 0x5f), (0x61, 0x7a), (0xc0, 0xd6), (0xd8, 0xf6), (0xf8, 0x2ff), (0x370, 0x37d), (0x37f, 0x1fff), (0x200c, 0x200d),
      (0x2070, 0x218f), (0x2c00, 0x2fef), (0x3001, 0xd7ff), (0xf900, 0xfdcf), (0xfdf0, 0xfffd), (0x10000, 0xeffff)]
C5 = N5 + [(0x2d, 0x2e), (0x30, 0x39), (0xb7, 0xb7), (0x300, 0x36f), (0x203f, 0x2040)]


class In(object):

    def __init__(self, ranges):
        self.ranges = ranges

    def __contains__(self, c):
        return any(a <= ord(c) <= z for a, z in self.ranges)


START5, NAME = In(N5), In(C5)
ESC = u'nrt\\|.-^?*+{}()[]'
ESCV = dict(n=u'\n', r=u'\r', t=u'\t')


def cat(c):
    return BYTYPE[Character.getType(ord(c))]


MULTI = {
    's': lambda c: c in u' \t\n\r', 'i': lambda c: c in START, 'c': lambda c: c in NAME,
    'd': lambda c: cat(c) == 'Nd', 'w': lambda c: cat(c)[0] not in 'PZC',
}
BLOCKS = {u'BasicLatin': (0, 0x7f), u'Latin-1Supplement': (0x80, 0xff), u'Cyrillic': (0x400, 0x4ff), u'CJKUnifiedIdeographs': (0x4e00, 0x9fff), u'CurrencySymbols': (0x20a0, 0x20cf), u'Arabic': (0x600, 0x6ff)}


class Exp(object):

    def __init__(self, src, match, gen, lo, unb, bad=False):
        self.src, self.match, self.gen, self.lo, self.unb, self.bad = src, match, gen, lo, unb, bad


def single(src, pred, r, pool):
    """an atom matching one character"""
    hits = [c for c in pool if pred(c)]
    return Exp(src, lambda s, starts: set(i + 1 for i in starts if i < len(s) and pred(s[i])),
               lambda: r.choice(hits) if hits else None, 1, False)


def esc_pred(r, cats):
    """(source, predicate) of a class escape"""
    k = r.randrange(4 if cats else 2)
    if k == 0:
        e = r.choice(ESC)
        v = ESCV.get(e, e)
        return u'\\' + e, (lambda c, v=v: c == v), v
    if k == 1:
        x = r.choice('sic' if not cats else 'sicdw')
        f = MULTI[x]
        if r.random() < 0.3:
            return u'\\' + x.upper(), (lambda c: not f(c)), None
        return u'\\' + x, f, None
    if k == 2:
        g = r.choice(['L', 'Lu', 'Ll', 'Lo', 'N', 'Nd', 'Nl', 'No', 'P', 'Pd', 'Ps', 'Po', 'Pc', 'Z', 'Zs', 'Zl', 'S', 'Sm', 'Sc', 'C', 'Cc', 'M', 'Mn', 'Cf'])
        f = lambda c: cat(c).startswith(g)
        if r.random() < 0.3:
            return u'\\P{%s}' % g, (lambda c: not f(c)), None
        return u'\\p{%s}' % g, f, None
    g = r.choice(sorted(BLOCKS))
    a, z = BLOCKS[g]
    f = lambda c: a <= ord(c) <= z
    if r.random() < 0.3:
        return u'\\P{Is%s}' % g, (lambda c: not f(c)), None
    return u'\\p{Is%s}' % g, f, None


def group(r, cats, pool, depth=0):
    """[...] : (source, predicate)"""
    src, preds = u'', []
    neg = r.random() < 0.3
    n = r.randrange(1, 5)
    if r.random() < 0.12:
        src += u'-'
        preds.append(lambda c: c == u'-')
    for i in range(n):
        k = r.randrange(3)
        if k == 0:
            s, f, v = esc_pred(r, cats)
            src += s
            preds.append(f)
        elif k == 1:
            c = r.choice([c for c in pool if c not in u'\\-[]^'])
            src += c
            preds.append(lambda x, c=c: x == c)
        else:
            a, z = sorted([r.choice([c for c in pool]), r.choice([c for c in pool])], key=ord)
            q = lambda c: u'\\' + c if c in u'\\-[]^' else c
            src += q(a) + u'-' + q(z)
            preds.append(lambda x, a=a, z=z: ord(a) <= ord(x) <= ord(z))
    if r.random() < 0.08 and not src.endswith(u'-'):
        src += u'-'
        preds.append(lambda c: c == u'-')
    base = (lambda c: not any(f(c) for f in preds)) if neg else (lambda c: any(f(c) for f in preds))
    src = (u'^' if neg else u'') + src
    if depth < 2 and r.random() < 0.25 and not src.endswith(u'-'):
        s2, p2 = group(r, cats, pool, depth + 1)
        return u'[%s-%s]' % (src, s2), (lambda c: base(c) and not p2(c))
    return u'[%s]' % src, base


def gen_atom(r, cats, pool, depth):
    k = r.randrange(8)
    if k < 3:
        c = r.choice([c for c in pool if c not in u'.\\?*+{}()[]|'])
        return single(c, lambda x: x == c, r, [c])
    if k == 3:
        s, f, v = esc_pred(r, cats)
        return single(s, f, r, pool if v is None else [v])
    if k == 4:
        return single(u'.', lambda c: c not in u'\n\r', r, pool)
    if k == 5 or depth <= 0:
        s, f = group(r, cats, pool)
        return single(s, f, r, pool)
    e = gen_alt(r, cats, pool, depth - 1)
    e.src = u'(%s)' % e.src
    return e


def gen_piece(r, cats, pool, depth):
    a = gen_atom(r, cats, pool, depth)
    if r.random() < 0.5:
        return a
    n, mx, q = r.choice([(0, 1, u'?'), (0, None, u'*'), (1, None, u'+'), (2, 2, u'{2}'), (0, 0, u'{0}'), (1, 1, u'{1}'), (0, 2, u'{0,2}'), (1, 3, u'{1,3}'), (2, 4, u'{2,4}'), (2, None, u'{2,}'), (0, None, u'{0,}'), (1, None, u'{1,}'), (3, 3, u'{03,3}')])

    def match(s, starts):
        cur, out, k = set(starts), set(), 0
        if n == 0:
            out |= cur
        seen = None
        while cur and (mx is None or k < mx):
            cur = a.match(s, cur)
            k += 1
            if k >= n:
                if cur <= out and mx is None and k > n:
                    break
                out |= cur
        return out

    def gen():
        k = r.randrange(n, (n + 3 if mx is None else mx) + 1)
        parts = [a.gen() for i in range(k)]
        return None if None in parts else u''.join(parts)
    # Python 2's engine does not repeat what can match nothing reliably (known finding)
    nested = a.lo == 0 and (n, mx) not in ((1, 1), (0, 0)) and (a.unb or mx is None or mx > 1)
    return Exp(a.src + q, match, gen, a.lo * n, mx != 0 and (a.unb or mx is None), a.bad and mx != 0 or nested)


def gen_branch(r, cats, pool, depth):
    ps = [gen_piece(r, cats, pool, depth) for i in range(r.choice([0, 1, 1, 2, 2, 3, 4]))]

    def match(s, starts):
        for p in ps:
            starts = p.match(s, starts)
        return starts

    def gen():
        parts = [p.gen() for p in ps]
        return None if None in parts else u''.join(parts)
    return Exp(u''.join(p.src for p in ps), match, gen, sum(p.lo for p in ps), any(p.unb for p in ps), any(p.bad for p in ps))


def gen_alt(r, cats, pool, depth):
    bs = [gen_branch(r, cats, pool, depth) for i in range(r.choice([1, 1, 2, 3]))]

    def match(s, starts):
        out = set()
        for b in bs:
            out |= b.match(s, starts)
        return out
    return Exp(u'|'.join(b.src for b in bs), match, lambda: r.choice(bs).gen(), min(b.lo for b in bs), any(b.unb for b in bs), any(b.bad for b in bs))


def other_engine(pattern, s):
    """The verdict of CPython's re on the same expression"""
    b = ProcessBuilder(['python3', '-c', 'import sys,re,ast;p,s=[ast.literal_eval(l) for l in sys.stdin];print(re.fullmatch(p,s) is not None)'])
    q = b.start()
    lit = lambda t: "'" + ''.join('\\U%08x' % ord(c) for c in t) + "'\n"
    o = q.getOutputStream()
    o.write(lit(pattern) + lit(s))
    o.close()
    return BufferedReader(InputStreamReader(q.getInputStream())).readLine() == u'True'


def fam_regex(m, r):
    m.rng_heavy = True
    cats = r.random() < 0.6
    pool = list(r.choice([ALPHA, u'ab', u'ab-^]', u'abc.', ALPHA, LETTERS + DIGITS]))
    if not cats:
        pool += list(ASTRAL)
    while True:
        e = gen_alt(r, cats, pool, r.randrange(0, 3))
        if len(e.src) < 70 and e.src.count(u'*') + e.src.count(u'+') + e.src.count(u'{') < 9:
            break
    m.key(e.src)
    m.sample(e.src)
    try:
        x = xsi.RegularExpression(e.src)
    except re.error as err:
        m.violate('regex:nested-repeat' if e.bad and 'nothing to repeat' in str(err) else 'regex:compile', '%s: %s' % (text(e.src), text(err)))
        return
    except xsi.RegularExpressionError as err:
        m.violate('regex:refused', '%s: %s' % (text(e.src), text(err)))
        return
    except ValueError as err:
        m.require('unpaired surrogate' in str(err), 'regex:error', text(e.src), text(err))
        m.count('surrogate-bound')
        return
    m.count('expressions')
    targets = [u'']
    for i in range(10):
        s = e.gen()
        if s is None:
            continue
        targets.append(s)
        targets.append(junk(r, s, pool))
    for i in range(4):
        targets.append(u''.join(r.choice(pool) for j in range(r.randrange(0, 5))))
    for s in targets:
        if len(s) > 18:
            continue
        want = len(s) in e.match(s, set([0]))
        try:
            got = x.Match(s)
        except RuntimeError as err:
            m.violate('regex:nested-repeat' if e.bad and 'recursion' in str(err) else 'regex:failed', '%s: %s' % (text(e.src), text(err)))
            return
        if bool(got) != want and bool(got) == (x.p.match(s) is not None) and other_engine(x.p.pattern, s) == want:
            # Jython's engine loses some matches of {n,m} that CPython's finds in the same expression
            m.count('engine-bug')
            continue
        m.check(bool(got) == want, 'regex:nested-repeat' if e.bad else 'regex:match', repr(e.src), repr(s), 'want', want, x.p.pattern[:200])
        m.count('matched' if want else 'unmatched')
    m.eq(unicode(x.src), e.src, 'regex:source')
    shared_ok(m, e.src)


BAD = [u'(', u')', u'a)b', u'(a', u'a**', u'a+*', u'a{2}{3}', u'*a', u'+', u'?', u'|*', u'(*a)', u'[', u'[]', u'[^]', u'[a', u']', u'a]', u'[b-a]', u'[z-\\t]', u'\\', u'a\\', u'\\q', u'\\p', u'\\p{', u'\\p{L', u'\\p{Zz}',
       u'\\p{IsNope}', u'\\p{}', u'\\p{BasicLatin}', u'\\pL', u'\\P{Nope}', u'a{', u'a{2', u'a{2,1}', u'a{,2}', u'a{x}', u'a{2,x}', u'a{-1}', u'[a-[b]', u'[a-[b]c]', u'[a[b]]', u'\\u0041', u'\\x41', u'\\b', u'\\A', u'[\\z]', u'[a-\\d]', u'a(b|c', u'[a-c-e]', u'(?:a)', u'(?i)a', u'a*?', u'a+?', u'\\1', u'a|b)', u'((a)', u'{2}', u'a{2},{3}}']


def fam_bad(m, r):
    b = BAD[m.index % len(BAD)]
    pool = list(u'ab-c1')
    pre, post = u'', u''
    if r.random() < 0.5 and b[0] not in u'*+?{|':
        pre = gen_branch(r, False, pool, 1).src + r.choice([u'', u'x'])
    s = pre + b
    if r.random() < 0.3 and b[-1] not in u'\\{[(' and b not in (u'[a', u'[a-[b]', u'(a', u'a(b|c', u'((a)', u'\\p', u'a{2', u'\\p{L', u'(', u'[^]', u'[]'):
        s += u'y'
    m.key(s)
    m.sample(s)
    m.count('malformed')
    try:
        xsi.RegularExpression(s)
    except xsi.RegularExpressionError:
        return
    except ValueError as err:
        m.check('unpaired surrogate' in str(err), 'regex:bad-error', s, text(err))
        return
    m.violate('regex:accepted', text(s))


# -- the basic parser ---------------------------------------------------------

def fam_parser(m, r):
    alphabet = u'ab01 9fFAxyz-\xe9\u0663'
    s = u''.join(r.choice(alphabet) for i in range(r.randrange(0, 14)))
    raw = r.random() < 0.3
    if raw:
        s = s.replace(u'\u0663', u'3').replace(u'\xe9', u'e').encode('latin-1')
    m.key(s)
    m.sample(s)
    p = u5.BasicParser(s)
    m.eq(p.raw, raw, 'parser:raw')
    pos = 0
    for step in range(12):
        m.check(p.pos == pos and p.theChar == (s[pos] if 0 <= pos < len(s) else None), 'parser:position', s, pos, p.pos, p.theChar)
        k = r.randrange(13)
        w = s[pos:pos + r.randrange(1, 4)] if r.random() < 0.6 else u'ab'
        rest = s[pos:]
        if k == 0:
            m.eq(p.Peek(3), s[pos:pos + 3], 'parser:peek')
            m.check(bool(p.Match(w)) == (rest.startswith(w) and rest != '' ), 'parser:match', s, pos, w)
        elif k == 1 and w:
            got = p.Parse(w)
            m.eq(got, w if rest.startswith(w) else u'', 'parser:parse', s, pos, w)
            pos += len(got)
        elif k == 2 and w:
            got = p.ParseUntil(w)
            i = rest.find(w)
            m.eq(got, rest if i < 0 else rest[:i], 'parser:until', s, pos, w)
            pos += len(got)
        elif k == 3 and w:
            if rest.startswith(w):
                p.Require(w)
                pos += len(w)
            else:
                m.raises(ValueError, 'parser:require', p.Require, w)
        elif k == 4:
            got = p.ParseOne(w)
            want = rest[0] if rest and rest[0] in w else None
            m.eq(got, want, 'parser:one', s, pos, w)
            pos += 0 if got is None else 1
        elif k == 5 and w:
            got = p.ParseInsensitive(w.lower())
            ok = bool(rest) and rest[:len(w)].lower() == w.lower()
            m.eq(got, w.lower() if ok else u'', 'parser:insensitive', s, pos, w)
            pos += len(w) if ok else 0
        elif k == 6 or k == 7:
            chars = u'0123456789' if k == 6 else u'0123456789abcdefABCDEF'
            lo, hi = r.randrange(0, 3), r.choice([None, 1, 2, 3])
            n = 0
            while n < len(rest) and rest[n] in chars and (hi is None or n < hi):
                n += 1
            got = (p.ParseDigits if k == 6 else p.ParseHexDigits)(lo, hi)
            if n < lo:
                m.eq(got, None, 'parser:digits', s, pos, lo, hi)
            else:
                m.eq(got, rest[:n], 'parser:digits', s, pos, lo, hi)
                pos += n
        elif k == 8:
            lo, hi, md = r.choice([None, 0, 5]), r.choice([None, 9, 50]), r.choice([None, 1, 2])
            n = 0
            while n < len(rest) and rest[n] in u'0123456789' and (md is None or n < md):
                n += 1
            got = p.ParseInteger(lo, hi, md)
            if n == 0 or (lo is not None and int(rest[:n]) < lo) or (hi is not None and int(rest[:n]) > hi):
                m.eq(got, None, 'parser:integer', s, pos, lo, hi, md)
            else:
                m.eq(got, int(rest[:n]), 'parser:integer', s, pos, lo, hi, md)
                pos += n
        elif k == 9:
            m.eq(bool(p.MatchEnd()), pos >= len(s), 'parser:end', s, pos)
            if pos >= len(s):
                p.RequireEnd()
            else:
                m.raises(ValueError, 'parser:require-end', p.RequireEnd)
        elif k == 10 and w:
            def prod(x):
                p.Require(x)
                p.Require(u'a')
                return x
            got = p.ParseProduction(prod, w)
            if rest.startswith(w) and rest[len(w):len(w) + 1] == u'a':
                m.eq(got, w, 'parser:production', s, pos, w)
                pos += len(w) + 1
            else:
                m.eq(got, None, 'parser:production-rewind', s, pos, w)
        elif k == 11:
            pos = r.randrange(0, len(s) + 1)
            p.SetPos(pos)
        else:
            m.raises(ValueError, 'parser:production-none', p.RequireProduction, None)
            m.eq(p.RequireProduction(u'x'), u'x', 'parser:production-some')
    m.count('steps', 12)
    # encodings
    t = r.choice([u'<', u'a', u'<?xml version="1.0"?>', u'{"a":1}'])
    enc, bom = r.choice([('utf-8', ''), ('utf-8', '\xef\xbb\xbf'), ('utf-16-le', ''), ('utf-16-be', ''), ('utf-16-le', '\xff\xfe'), ('utf-16-be', '\xfe\xff')])
    b = bom + (t * 4).encode(enc)
    got = u5.DetectEncoding(b)
    back = b.decode(got) if got else None
    m.check(back is not None and back.lstrip(u'\ufeff') == t * 4, 'detect', enc, repr(bom), t, got)
    got = u5.DetectEncoding(b[:4])
    m.check(got is not None and b.decode(got).lstrip(u'\ufeff') == t * 4, 'detect:four', enc, repr(bom), t, got)


FAMILIES = [
    Family('class', fam_class, 1500, 20000, need=dict(classes=1000)),
    Family('ucd', fam_ucd, 512, 1024, need=dict(characters=30000, blocks=60)),
    Family('number', fam_number, 6000, 60000, need=dict(literals=1000, encoded=1500, rounded=700)),
    Family('enum', fam_enum, 1500, 10000, need=dict(lists=300)),
    Family('text', fam_text, 1500, 10000),
    Family('regex', fam_regex, 3000, 40000, need=dict(expressions=1500, matched=5000, unmatched=5000)),
    Family('bad', fam_bad, 1200, 8000),
    Family('parser', fam_parser, 2500, 15000),
]
