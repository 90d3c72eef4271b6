"""QTI values and expressions: generator, XML form and an independent evaluator.

A value is (card, base, val): card None 's' 'o' 'm' 'r'; base a type name or
None; val None (NULL), a python value, a list (o, m) or a dict name->(base, val)"""

import math
from decimal import Decimal, Context, ROUND_HALF_UP, ROUND_HALF_EVEN
from fractions import Fraction
from java.util.regex import Pattern

CARDS = {'s': 'single', 'o': 'ordered', 'm': 'multiple', 'r': 'record'}
TYPES = ['boolean', 'directedPair', 'duration', 'float', 'identifier', 'integer', 'pair', 'point', 'string', 'uri']
NULL = (None, None, None)
CTX = Context(prec=700)


class Refuse(Exception):
    pass


class Unknown(Exception):
    """outside what the specification settles"""


def esc(s):
    for a, b in ((u'&', u'&amp;'), (u'<', u'&lt;'), (u'>', u'&gt;'), (u'"', u'&quot;'), (u'\n', u'&#10;'), (u'\t', u'&#9;'), (u'\r', u'&#13;')):
        s = s.replace(a, b)
    return s


IDS = [u'A', u'B', u'C', u'D', u'a', u'Ab', u'_x', u'x.1', u'x-2', u'\xc9t\xe9', u'Z9']
STRS = [u'a', u'b', u'ab', u'AB', u'Abc', u'abc', u' abc ', u'bca', u'\xe9', u'\xc9', u'<&">', u'1', u'01', u'true', u'a b', u'aab', u'cab', u"it's", u'3.0']
URIS = [u'http://www.example.com/a', u'http://www.example.com/b?q=1#f', u'a/b.png', u'../x', u'urn:isbn:1', u'file:///tmp/x']
FLOATS = [0.0, 1.0, -1.0, 0.5, 2.5, -2.5, 1.5, 3.0, 4.0, 100.0, 3.14, 3.1416, 0.1, 0.3, -0.04, 0.04, 0.05, 1e-7, 1234.5678, 1e10, 6.5, -6.5, 0.49999999999999994, 1e300, -1e200, 1e-300, 2147483647.0,
          2147483648.0, -2147483648.0, -2147483649.0, 99.996, 12.0, 0.001, 7.0, 16.0, 9.995]
INTS = [0, 1, 2, 3, 4, 5, -1, -2, -3, 7, 10, 12, 100, -7, 65536, 46341, 2147483647, -2147483648, 2147483646, 50]


def atom(r, t, weird=True):
    c = r.random()
    if t == 'boolean':
        return c < .5
    if t == 'identifier':
        return r.choice(IDS)
    if t == 'directedPair':
        return (r.choice(IDS[:5]), r.choice(IDS[:5]))
    if t == 'pair':
        return tuple(sorted((r.choice(IDS[:5]), r.choice(IDS[:5]))))
    if t == 'duration':
        return abs(r.choice([0.0, 1.0, 0.5, 3.25, 60.0, 12.7, float(r.randint(0, 9))]))
    if t == 'float':
        if weird and c < .06:
            return r.choice([float('inf'), float('-inf'), float('nan')])
        if c < .5:
            return r.choice(FLOATS)
        if c < .8:
            return r.randint(-40, 40) / 4.0
        return round(r.uniform(-20, 20), r.randint(0, 6))
    if t == 'integer':
        return r.choice(INTS) if c < .4 else r.randint(-12, 12)
    if t == 'point':
        return (r.randint(-5, 25), r.randint(-5, 25))
    if t == 'string':
        return r.choice(STRS)
    if t == 'uri':
        return r.choice(URIS)
    raise ValueError(t)


def ftext(v, r=None):
    if v != v:
        return u'NaN'
    if v in (float('inf'), float('-inf')):
        return u'INF' if v > 0 else u'-INF'
    s = repr(v)
    if r and r.random() < .3:
        s = r.choice(['%.17e' % v, '%.16E' % v, '+' + s if not s.startswith('-') else s, s.replace('e', 'E')])
        if float(s) != v:
            s = repr(v)
    return unicode(s)


def atext(t, v, r=None):
    """The XML text of an atomic value"""
    if t == 'boolean':
        return (r.choice([u'true', u'1']) if v else r.choice([u'false', u'0'])) if r else (u'true' if v else u'false')
    if t in ('float', 'duration'):
        return ftext(v, r)
    if t == 'integer':
        return unicode(v)
    if t in ('directedPair', 'pair'):
        v = list(v)
        if t == 'pair' and r and r.random() < .5:
            v.reverse()
        return u' '.join(v)
    if t == 'point':
        return u'%d %d' % v
    return v


def freq(l):
    d = {}
    for x in l:
        d[x] = d.get(x, 0) + 1
    return d


def settled(*vs):
    """Raises Unknown when equality involves NaN"""
    for v in vs:
        for x in (v[2].values() if isinstance(v[2], dict) else v[2] if isinstance(v[2], list) else [v[2]]):
            if isinstance(x, tuple) and len(x) == 2:
                x = x[1]
            if x != x:
                raise Unknown('NaN')


def same(a, b):
    """Equality of non null values of the same type and cardinality"""
    settled(a, b)
    if a[0] == 'm':
        return freq(a[2]) == freq(b[2])
    if a[0] == 'r':
        return sorted(a[2].items()) == sorted(b[2].items())
    return a[2] == b[2]


def merge(kind, xs):
    """wild-card merge of base types or cardinalities"""
    res = None
    for x in xs:
        if x is None:
            continue
        if res is None:
            res = x
        elif x != res:
            raise Refuse(kind, x, res)
    return res


def numeric(xs):
    res = None
    for x in xs:
        if x is None:
            continue
        if x not in ('integer', 'float'):
            raise Refuse('numeric', x)
        res = x if res is None or res == x else 'float'
    return res


def B(v):
    return ('s', 'boolean', v)


def integer(v):
    if v < -2147483648 or v > 2147483647:
        raise Unknown('integer range')
    return ('s', 'integer', int(v))


# --- evaluation ------------------------------------------------------------
# an expression is a tuple (op, attrs, children)

def ev(e, env):
    op, at, ch = e
    vs = [ev(c, env) for c in ch]
    return OPS[op](at, vs, env)


def singles(vs, base):
    merge('card', [v[0] for v in vs] + ['s'])
    merge('base', [v[1] for v in vs] + [base])


def op_multi(card):
    def f(at, vs, env):
        base = merge('base', [v[1] for v in vs])
        out = []
        for v in vs:
            if v[0] not in (None, 's', card):
                raise Refuse('container')
            if v[2] is None:
                continue
            out.extend([v[2]] if v[0] == 's' else v[2])
        return (card, base, out or None)
    return f


def op_size(at, vs, env):
    v, = vs
    if v[0] not in (None, 'o', 'm'):
        raise Refuse('size')
    return ('s', 'integer', len(v[2] or []))


def op_index(at, vs, env):
    v, = vs
    n = int(at['n'])
    if v[0] not in (None, 'o') or n < 1:
        raise Refuse('index')
    l = v[2] or []
    return ('s', v[1], l[n - 1] if n <= len(l) else None)


def op_field(at, vs, env):
    v, = vs
    if v[0] not in (None, 'r'):
        raise Refuse('field')
    b, x = (v[2] or {}).get(at['fieldIdentifier'], (None, None))
    return ('s', b, x)


def member_check(s, c):
    merge('card', [s[0], 's'])
    if c[0] not in (None, 'o', 'm'):
        raise Refuse('container')
    if merge('base', [s[1], c[1]]) == 'duration':
        if s[1] is None or c[1] is None:
            raise Unknown('duration')
        raise Refuse('duration')


def op_member(at, vs, env):
    s, c = vs
    member_check(s, c)
    if s[2] is None or c[2] is None:
        return B(None)
    settled(s, c)
    return B(s[2] in c[2])


def op_delete(at, vs, env):
    s, c = vs
    member_check(s, c)
    base = s[1] or c[1]
    if s[2] is None or c[2] is None:
        return (c[0], base, None)
    settled(s, c)
    return (c[0], base, [x for x in c[2] if x != s[2]] or None)


def op_contains(at, vs, env):
    a, b = vs
    card = merge('card', [a[0], b[0]])
    if card not in (None, 'o', 'm'):
        raise Refuse('contains')
    if merge('base', [a[1], b[1]]) == 'duration':
        raise Refuse('duration')
    if a[2] is None or b[2] is None:
        return B(None)
    settled(a, b)
    x, y = a[2], b[2]
    if card == 'o':
        return B(any(y[i:i + len(x)] == x for i in range(0, len(y) - len(x) + 1)))
    fx, fy = freq(x), freq(y)
    return B(all(fx[k] <= fy.get(k, 0) for k in fx))


def op_string(sub):
    def f(at, vs, env):
        singles(vs, 'string')
        a, b = vs[0][2], vs[1][2]
        if a is None or b is None:
            return B(None)
        if at['caseSensitive'] in ('false', '0'):
            a, b = a.lower(), b.lower()
        if sub or at.get('substring') in ('true', '1'):
            return B(b.find(a) >= 0)
        return B(a == b)
    return f


def op_not(at, vs, env):
    singles(vs, 'boolean')
    return B(None if vs[0][2] is None else not vs[0][2])


def op_and(at, vs, env):
    singles(vs, 'boolean')
    x = [v[2] for v in vs]
    return B(False if False in x else None if None in x else True)


def op_or(at, vs, env):
    singles(vs, 'boolean')
    x = [v[2] for v in vs]
    return B(True if True in x else None if None in x else False)


def tref(value, env, base):
    """an ...OrTemplateRef attribute"""
    if value.startswith('{') and value.endswith('}'):
        n = value[1:-1]
        if n in env['templates']:
            v = env['vars'][n]
            if v[0] == 's' and v[1] == base:
                return v[2]
            raise Refuse('ref')
        if base == 'string':
            return value
        raise Refuse('ref')
    return {'integer': int, 'float': lambda x: float(x.replace('INF', 'inf')), 'string': lambda x: x}[base](value)


def op_anyn(at, vs, env):
    lo, hi = tref(at['min'], env, 'integer'), tref(at['max'], env, 'integer')
    singles(vs, 'boolean')
    if lo is None or hi is None or lo > hi:
        raise Unknown('anyN limits')
    x = [v[2] for v in vs]
    t, n = x.count(True), x.count(None)
    # every way the unknowns could turn out
    outs = set(lo <= t + i <= hi for i in range(n + 1))
    return B(outs.pop() if len(outs) == 1 else None)


def op_match(at, vs, env):
    a, b = vs
    merge('card', [a[0], b[0]])
    if merge('base', [a[1], b[1]]) == 'duration':
        raise Refuse('duration')
    if a[2] is None or b[2] is None:
        return B(None)
    if a[0] == 'r':
        for f in a[2]:
            if f in b[2] and (a[2][f][0] != b[2][f][0] or a[2][f][0] == 'duration'):
                raise Unknown('record fields')
    return B(same(a, b))


def op_pattern(at, vs, env):
    p = tref(at['pattern'], env, 'string')
    singles(vs, 'string')
    if vs[0][2] is not None and p is not None and p not in env['patterns'] and p not in BADPATS:
        raise Unknown('pattern from a variable')
    if vs[0][2] is None or p is None or p not in env['patterns']:
        # not one of the well formed patterns
        return B(None)
    return B(bool(Pattern.compile(env['patterns'][p], Pattern.DOTALL).matcher(vs[0][2]).matches()))


def fr(x):
    return Fraction(Decimal(repr(x)) * 0 + 0) if False else Fraction.from_float(x)


def finite(*xs):
    return all(x == x and abs(x) != float('inf') for x in xs)


def nums(vs):
    base = numeric([v[1] for v in vs])
    merge('card', [v[0] for v in vs] + ['s'])
    return base, [v[2] for v in vs]


def op_equal(at, vs, env):
    base, (a, b) = nums(vs)
    mode = at['toleranceMode']
    if a is None or b is None:
        return B(None)
    a, b = float(a), float(b)
    if mode == 'exact':
        return B(a == b)
    tol = at.get('tolerance', '').split()
    if not tol:
        raise Refuse('tolerance')
    ts = [tref(t, env, 'float') for t in tol]
    if None in ts or not finite(a, b):
        raise Unknown('tolerance')
    if len(ts) == 1:
        ts = ts * 2
    il, iu = [at.get(k, 'true') in ('true', '1') for k in ('includeLowerBound', 'includeUpperBound')]
    res = set()
    for num in (float, fr):
        x, y, t0, t1 = num(a), num(b), num(ts[0]), num(ts[1])
        if mode == 'absolute':
            lo, hi = x - t0, x + t1
        else:
            if a < 0:
                raise Unknown('relative to a negative')
            lo, hi = x * (1 - t0 / 100), x * (1 + t1 / 100)
        res.add((y >= lo if il else y > lo) and (y <= hi if iu else y < hi))
    if len(res) > 1:
        raise Unknown('tolerance limit')
    return B(res.pop())


def rounded(v, figs, places):
    if v == 0:
        return Decimal(0)
    d = Decimal(repr(v))
    exp = -figs if places else d.adjusted() - figs + 1
    q = set(d.quantize(Decimal((0, (1,), exp)), m, CTX) for m in (ROUND_HALF_UP, ROUND_HALF_EVEN))
    if len(q) > 1:
        raise Unknown('tie')
    return q.pop()


def op_rounded(at, vs, env):
    base, (a, b) = nums(vs)
    if a is None or b is None:
        return B(None)
    n = tref(at['figures'], env, 'integer')
    a, b = float(a), float(b)
    places = at['roundingMode'] == 'decimalPlaces'
    if n is None or not finite(a, b) or n < (0 if places else 1) or n > 300:
        raise Unknown('figures')
    return B(rounded(a, n, places) == rounded(b, n, places))


def length(x, dim):
    x = x.strip()
    if x.endswith('%'):
        return (int(x[:-1]) * dim + 50) // 100
    return int(x)


def in_shape(at, p, dim):
    """True, False or None (on the edge of a polygon)"""
    x, y = p
    c = [length(v, dim) for v in at['coords'].split(',')] if at['coords'] else []
    s = at['shape']
    if s == 'default':
        return x >= 0 and y >= 0 and (dim is None or (x <= dim and y <= dim))
    if s == 'circle':
        return (x - c[0]) ** 2 + (y - c[1]) ** 2 <= c[2] ** 2
    if s == 'ellipse':
        return (x - c[0]) ** 2 * c[3] ** 2 + (y - c[1]) ** 2 * c[2] ** 2 <= (c[2] * c[3]) ** 2
    if s == 'rect':
        x0, x1 = sorted((c[0], c[2]))
        y0, y1 = sorted((c[1], c[3]))
        return x0 <= x < x1 and y0 <= y < y1
    pts = zip(c[::2], c[1::2])
    inside = False
    for (ax, ay), (bx, by) in zip(pts, pts[1:] + pts[:1]):
        cross = (bx - ax) * (y - ay) - (by - ay) * (x - ax)
        if cross == 0 and min(ax, bx) <= x <= max(ax, bx) and min(ay, by) <= y <= max(ay, by):
            return None
        # a vertical ray downwards
        if (ax <= x) != (bx <= x):
            if Fraction(ay) + Fraction(x - ax, bx - ax) * (by - ay) > y:
                inside = not inside
    return inside


def op_inside(at, vs, env):
    v, = vs
    merge('base', [v[1], 'point'])
    if v[0] == 'r':
        raise Refuse('record')
    if v[2] is None:
        return B(None)
    hits = [in_shape(at, p, None) for p in ([v[2]] if v[0] == 's' else v[2])]
    if True in hits:
        return B(True)
    if None in hits:
        raise Unknown('edge')
    return B(False)


def op_cmp(f, dur=False):
    def g(at, vs, env):
        if dur:
            singles(vs, 'duration')
        else:
            numeric([v[1] for v in vs])
            merge('card', [v[0] for v in vs] + ['s'])
        a, b = vs[0][2], vs[1][2]
        if a is None or b is None:
            return B(None)
        return B(f(float(a), float(b)))
    return g


def op_arith(f):
    def g(at, vs, env):
        base, xs = nums(vs)
        if base is None:
            return ('s', None, None)
        if None in xs:
            return ('s', base, None)
        if base == 'integer':
            return integer(f([long(x) for x in xs]))
        return ('s', 'float', f([float(x) for x in xs]))
    return g


def total(xs):
    t = 0
    for x in xs:
        t += x
    return t


def times(xs):
    t = 1
    for x in xs:
        t *= x
    return t


def op_divide(at, vs, env):
    base, (a, b) = nums(vs)
    if a is None or b is None:
        return ('s', 'float', None)
    a, b = float(a), float(b)
    if not finite(a, b):
        raise Unknown('inf')
    if b == 0:
        return ('s', 'float', None)
    q = Fraction.from_float(a) / Fraction.from_float(b)
    if abs(q) > Fraction.from_float(1.7976931348623157e308):
        return ('s', 'float', None)
    return ('s', 'float', a / b)


def op_power(at, vs, env):
    base, (a, b) = nums(vs)
    if a is None or b is None:
        return ('s', 'float', None)
    a, b = float(a), float(b)
    if not finite(a, b):
        raise Unknown('inf')
    if a == 0 and b < 0 or a < 0 and b != math.floor(b):
        return ('s', 'float', None)
    if a == 0:
        return ('s', 'float', 1.0 if b == 0 else 0.0)
    l = b * math.log(abs(a))
    if l > 709.7:
        if l < 709.9:
            raise Unknown('limit')
        return ('s', 'float', None)
    return ('s', 'float', math.pow(a, b))


def op_idiv(mod):
    def f(at, vs, env):
        singles(vs, 'integer')
        a, b = vs[0][2], vs[1][2]
        if a is None or b is None or b == 0:
            return ('s', 'integer', None)
        a, b = long(a), long(b)
        z = abs(a) // abs(b)
        if (a < 0) != (b < 0):
            z = -z - (1 if abs(a) % abs(b) else 0)
        if not mod and z > 2147483647:
            return ('s', 'integer', None)
        return ('s', 'integer', int(a - z * b if mod else z))
    return f


def op_toint(rnd):
    def f(at, vs, env):
        singles(vs, 'float')
        x = vs[0][2]
        if x is None or not finite(x):
            return ('s', 'integer', None)
        q = Fraction.from_float(x)
        if rnd:
            n = (q + Fraction(1, 2)).__floor__() if hasattr(q, '__floor__') else (q + Fraction(1, 2)).numerator // (q + Fraction(1, 2)).denominator
        else:
            n = abs(q.numerator) // q.denominator * (-1 if q < 0 else 1)
        if n < -2147483648 or n > 2147483647:
            return ('s', 'integer', None)
        return ('s', 'integer', int(n))
    return f


def op_tofloat(at, vs, env):
    singles(vs, 'integer')
    x = vs[0][2]
    return ('s', 'float', None if x is None else float(x))


def op_var(at, vs, env):
    if at['identifier'] not in env['vars']:
        raise Refuse('undeclared')
    return env['vars'][at['identifier']]


def op_default(at, vs, env):
    if at['identifier'] not in env['defaults']:
        if at['identifier'] in env['templates']:
            raise Unknown('template default')
        raise Refuse('undeclared')
    return env['defaults'][at['identifier']]


def op_correct(at, vs, env):
    if at['identifier'] not in env['corrects']:
        raise Refuse('correct')
    return env['corrects'][at['identifier']]


def bound(m, x):
    if m.get('lower') is not None and x < m['lower']:
        return m['lower']
    if m.get('upper') is not None and x > m['upper']:
        return m['upper']
    return x


def vlist(v):
    return [] if v[2] is None else [v[2]] if v[0] == 's' else v[2]


def op_map(at, vs, env):
    m = env['maps'].get(at['identifier'])
    if m is None:
        raise Refuse('no mapping')
    v = env['vars'][at['identifier']]
    if v[2] is None:
        raise Unknown('null map')
    d = dict(m['entries'])
    if len(d) != len(m['entries']):
        raise Unknown('repeated key')
    t = 0.0
    for x in freq(vlist(v)):
        t += d.get(x, m['default'])
    return ('s', 'float', bound(m, t))


def op_mappoint(at, vs, env):
    m = env['areas'].get(at['identifier'])
    if m is None:
        raise Refuse('no area mapping')
    v = env['vars'][at['identifier']]
    if v[2] is None:
        raise Unknown('null map')
    l = vlist(v)
    t = 0.0
    used = set()
    missed = set()
    for p in l:
        for i, (a, val) in enumerate(m['entries']):
            h = in_shape(a, p, 100)
            if h is None:
                raise Unknown('edge')
            if h:
                if i not in used:
                    used.add(i)
                    t += val
                break
        else:
            if p in missed:
                if v[0] == 'o':
                    raise Unknown('repeated miss')
                continue
            missed.add(p)
            t += m['default']
    return ('s', 'float', bound(m, t))


OPS = {'baseValue': lambda at, vs, env: at['_v'], 'null': lambda at, vs, env: NULL, 'variable': op_var, 'default': op_default, 'correct': op_correct, 'mapResponse': op_map, 'mapResponsePoint': op_mappoint,
       'multiple': op_multi('m'), 'ordered': op_multi('o'), 'containerSize': op_size, 'isNull': lambda at, vs, env: B(vs[0][2] is None), 'index': op_index, 'fieldValue': op_field,
       'member': op_member, 'delete': op_delete, 'contains': op_contains, 'substring': op_string(True), 'stringMatch': op_string(False), 'not': op_not, 'and': op_and, 'or': op_or, 'anyN': op_anyn,
       'match': op_match, 'patternMatch': op_pattern, 'equal': op_equal, 'equalRounded': op_rounded, 'inside': op_inside,
       'lt': op_cmp(lambda a, b: a < b), 'gt': op_cmp(lambda a, b: a > b), 'lte': op_cmp(lambda a, b: a <= b), 'gte': op_cmp(lambda a, b: a >= b),
       'durationLT': op_cmp(lambda a, b: a < b, True), 'durationGTE': op_cmp(lambda a, b: a >= b, True),
       'sum': op_arith(total), 'product': op_arith(times), 'subtract': op_arith(lambda x: x[0] - x[1]), 'divide': op_divide, 'power': op_power,
       'integerDivide': op_idiv(False), 'integerModulus': op_idiv(True), 'truncate': op_toint(False), 'round': op_toint(True), 'integerToFloat': op_tofloat}


# --- generation ------------------------------------------------------------

PATTERNS = {u'a': u'a', u'[a-c]+': u'[a-c]+', u'a*b?c': u'a*b?c', u'.*': u'.*', u'\\s*abc\\s*': u'\\s*abc\\s*', u'(a|b)c?a?': u'(a|b)c?a?', u'[^a]*': u'[^a]*', u'\\d+': u'\\d+', u'ab|AB|Abc': u'ab|AB|Abc',
            u'.{2,3}': u'.{2,3}', u'true': u'true', u'\\d\\.\\d': u'\\d\\.\\d'}
BADPATS = [u'(', u'[a', u'a{2', u'*a', u'a)']


def coords(r, pct=False):
    s = r.choice(['circle', 'rect', 'rect', 'poly', 'poly', 'ellipse', 'default'])
    i = lambda a, b: unicode(r.randint(a, b)) + (u'%' if pct and r.random() < .2 else u'')
    if s == 'default':
        c = u''
    elif s == 'circle':
        c = [i(0, 20), i(0, 20), i(1, 12)]
    elif s == 'ellipse':
        c = [i(0, 20), i(0, 20), i(1, 12), i(1, 12)]
    elif s == 'rect':
        c = [i(0, 20), i(0, 20), i(0, 20), i(0, 20)]
    else:
        c = []
        for k in range(r.randint(3, 7)):
            c += [i(0, 20), i(0, 20)]
        if r.random() < .3:
            c += c[:2]
    return {'shape': s, 'coords': r.choice([u',', u', ']).join(c) if c else u''}


class Gen(object):
    def __init__(self, r, env, err=.04):
        self.r = r
        self.env = env
        self.err = err

    def vars_of(self, t, card):
        return [n for n, v in self.env['vars'].items() if v[0] == card and (v[1] == t or card == 'r') and '.' not in n]

    def leaf(self, t, card):
        r = self.r
        vs = self.vars_of(t, card)
        c = r.random()
        if c < .07:
            return ('null', {}, [])
        if vs and (card == 'r' or c < .45):
            n = r.choice(sorted(vs))
            k = r.random()
            if k < .1 and n in self.env['corrects']:
                return ('correct', {'identifier': n}, [])
            if k < .2 and n in self.env['defaults']:
                return ('default', {'identifier': n}, [])
            return ('variable', {'identifier': n}, [])
        if card == 's':
            v = atom(r, t)
            return ('baseValue', {'baseType': t, '_v': ('s', t, v)}, [])
        if card == 'r':
            return ('null', {}, [])
        return self.container(t, card, 0)

    def container(self, t, card, d):
        r = self.r
        return ({'o': 'ordered', 'm': 'multiple'}[card], {}, [self.gen(t, card if r.random() < .12 else 's', d - 1) for i in range(r.choice([0, 1, 2, 2, 3, 4, 5]))])

    def intref(self, v):
        r = self.r
        if r.random() < .15:
            ns = [n for n in self.env['templates'] if self.env['vars'][n][1] == 'integer' and self.env['vars'][n][0] == 's']
            if ns:
                return u'{%s}' % r.choice(sorted(ns))
            if r.random() < .1:
                return u'{nope}'
        return unicode(v)

    def fltref(self, v):
        r = self.r
        if r.random() < .15:
            ns = [n for n in self.env['templates'] if self.env['vars'][n][1] == 'float' and self.env['vars'][n][0] == 's']
            if ns:
                return u'{%s}' % r.choice(sorted(ns))
        return ftext(v)

    def gen(self, t, card, d):
        r = self.r
        if r.random() < self.err:
            t, card = r.choice(TYPES), r.choice('ssomr')
        if d <= 0 or r.random() < .12:
            return self.leaf(t, card)
        g = lambda tt=t, cc='s': self.gen(tt, cc, d - 1)
        num = lambda: r.choice(['integer', 'float'])
        ct = lambda: r.choice(TYPES) if r.random() < .5 else r.choice(['identifier', 'integer', 'string', 'pair'])
        boo = lambda: r.choice(['true', 'false', 'true', 'false', '1', '0'])
        if card in 'om':
            if r.random() < .3:
                return ('delete', {}, [g(), g(t, card)])
            return self.container(t, card, d)
        if card == 'r':
            return self.leaf(t, card)
        c = r.random()
        if c < .06:
            return ('index', {'n': unicode(r.choice([1, 1, 2, 3, 4, 9, 0, -1]))}, [g(t, 'o')])
        if c < .1:
            return ('fieldValue', {'fieldIdentifier': r.choice([u'f_' + t, u'f_' + t, u'nope'])}, [g(t, 'r')])
        if t == 'boolean':
            op = r.choice(['isNull', 'not', 'and', 'or', 'anyN', 'match', 'match', 'stringMatch', 'substring', 'patternMatch', 'equal', 'equal', 'equalRounded', 'equalRounded', 'lt', 'gt', 'lte', 'gte', 'durationLT',
                           'durationGTE', 'member', 'member', 'contains', 'contains', 'inside', 'inside'])
            if op == 'isNull':
                return (op, {}, [g(ct(), r.choice('ssom'))])
            if op == 'not':
                return (op, {}, [g()])
            if op in ('and', 'or'):
                return (op, {}, [g() for i in range(r.randint(1, 4))])
            if op == 'anyN':
                n = r.randint(1, 5)
                lo = r.randint(0, n)
                return (op, {'min': self.intref(lo), 'max': self.intref(r.randint(max(0, lo - 1), n))}, [g() for i in range(n)])
            if op == 'match':
                tt, cc = ct(), r.choice('sssoomr')
                return (op, {}, self.pair(tt, cc, d))
            if op in ('stringMatch', 'substring'):
                a = {'caseSensitive': boo()}
                if op == 'stringMatch' and r.random() < .4:
                    a['substring'] = boo()
                return (op, a, self.pair('string', 's', d))
            if op == 'patternMatch':
                k = r.random()
                p = r.choice(sorted(PATTERNS)) if k < .75 else r.choice(BADPATS)
                ns = [n for n in self.env['templates'] if self.env['vars'][n][1] == 'string']
                if k > .88 and ns:
                    p = u'{%s}' % r.choice(sorted(ns))
                return (op, {'pattern': p}, [g('string')])
            if op == 'equal':
                mode = r.choice(['exact', 'absolute', 'relative'])
                a = {'toleranceMode': mode}
                if mode != 'exact' and r.random() < .95:
                    tl = [0.0, .25, .5, 1.0, 2.0, .14] if mode == 'absolute' else [0.0, 25.0, 50.0, 100.0, 3.0, 12.5]
                    a['tolerance'] = u' '.join(self.fltref(r.choice(tl)) for i in range(r.choice([1, 1, 2])))
                for k in ('includeLowerBound', 'includeUpperBound'):
                    if r.random() < .5:
                        a[k] = boo()
                return (op, a, self.near(d, a))
            if op == 'equalRounded':
                a = {'roundingMode': r.choice(['decimalPlaces', 'significantFigures']), 'figures': self.intref(r.choice([0, 1, 1, 2, 2, 3, 4, 6]))}
                return (op, a, self.near(d, a))
            if op in ('lt', 'gt', 'lte', 'gte'):
                return (op, {}, self.near(d, {}))
            if op in ('durationLT', 'durationGTE'):
                return (op, {}, self.pair('duration', 's', d))
            if op == 'member':
                tt = r.choice([x for x in TYPES if x != 'duration']) if r.random() < .96 else 'duration'
                return (op, {}, [g(tt), g(tt, r.choice('om'))])
            if op == 'contains':
                tt = r.choice(['identifier', 'boolean', 'integer', 'pair', 'point', 'directedPair', 'string']) if r.random() < .95 else ct()
                cc = r.choice('om')
                return (op, {}, self.contain(tt, cc, d))
            return ('inside', coords(r), [g('point', r.choice('ssom'))])
        if t == 'integer' and c < .8:
            op = r.choice(['containerSize', 'sum', 'product', 'subtract', 'integerDivide', 'integerModulus', 'truncate', 'round'])
            if op == 'containerSize':
                return (op, {}, [g(ct(), r.choice('om'))])
            if op in ('sum', 'product'):
                return (op, {}, [g('integer') for i in range(r.randint(1, 4))])
            if op in ('truncate', 'round'):
                return (op, {}, [g('float')])
            return (op, {}, [g('integer'), g('integer')])
        if t == 'float' and c < .8:
            op = r.choice(['sum', 'product', 'subtract', 'divide', 'divide', 'power', 'power', 'integerToFloat', 'mapResponse', 'mapResponsePoint'])
            if op == 'mapResponse':
                return (op, {'identifier': r.choice(sorted(self.env['maps']) or [u'X'])}, []) if r.random() < .9 else (op, {'identifier': r.choice(sorted(self.env['vars']))}, [])
            if op == 'mapResponsePoint':
                return (op, {'identifier': r.choice(sorted(self.env['areas']) or [u'X'])}, []) if r.random() < .9 else (op, {'identifier': r.choice(sorted(self.env['vars']))}, [])
            if op == 'integerToFloat':
                return (op, {}, [g('integer')])
            if op in ('sum', 'product'):
                return (op, {}, [g(num()) for i in range(r.randint(1, 3))] + [g('float')])
            return (op, {}, [g(num()), g('float')] if op == 'subtract' else [g(num()), g(num())])
        return self.leaf(t, card)

    def pair(self, t, card, d):
        """two operands that are often equal"""
        a = self.gen(t, card, d - 1)
        if self.r.random() < .3:
            return [a, a]
        return [a, self.gen(t, card, d - 1)]

    def contain(self, t, card, d):
        r = self.r
        big = [atom(r, t, False) for i in range(r.randint(0, 6))]
        if r.random() < .4 and big:
            # repeated values, so that partial matches overlap
            big = [r.choice(big[:2]) for i in range(r.randint(3, 8))]
        if r.random() < .5 and big:
            i = r.randrange(len(big))
            part = big[i:i + r.randint(1, 4)] if card == 'o' or r.random() < .3 else r.sample(big, r.randint(1, len(big)))
            if r.random() < .3:
                part = part + [r.choice(big)]
        else:
            part = [atom(r, t, False) for i in range(r.randint(0, 3))]
        mk = lambda l: ({'o': 'ordered', 'm': 'multiple'}[card], {}, [('baseValue', {'baseType': t, '_v': ('s', t, v)}, []) for v in l])
        if r.random() < .2:
            return [self.gen(t, card, d - 1), self.gen(t, card, d - 1)]
        return [mk(part), mk(big)]

    def near(self, d, at):
        """two numbers, often close to each other"""
        r = self.r
        if r.random() < .3:
            return [self.gen(r.choice(['integer', 'float']), 's', d - 1), self.gen(r.choice(['integer', 'float']), 's', d - 1)]
        a = atom(r, r.choice(['integer', 'float']), False)
        b = a
        k = r.random()
        if k < .75 and abs(a) < 1e9:
            if at.get('toleranceMode') == 'relative':
                b = a * r.choice([.5, .75, 1.25, 1.5, 1.03, .97, 2, 1.125, .875])
            else:
                b = a + r.choice([.25, -.25, .5, -.5, 1, -1, 2, -2, .14, -.14, .004, .0004, -.004, .04, .4, 1e-9, .01])
        if isinstance(b, float) and b == int(b) and r.random() < .4:
            b = int(b)
        bv = lambda x: ('baseValue', {'baseType': 'integer' if isinstance(x, (int, long)) else 'float', '_v': ('s', 'integer' if isinstance(x, (int, long)) else 'float', x)}, [])
        if any(isinstance(x, (int, long)) and abs(x) > 2147483647 for x in (a, b)):
            a, b = float(a), float(b)
        return [bv(a), bv(b)]


def xml_of(e, r):
    op, at, ch = e
    s = u'<' + op
    keys = [k for k in at if k != '_v']
    r.shuffle(keys)
    for k in keys:
        s += u' %s="%s"' % (k, esc(at[k]))
    if op == 'baseValue':
        return s + u'>' + esc(atext(at['_v'][1], at['_v'][2], r)) + u'</baseValue>'
    if not ch:
        return s + u'/>'
    return s + u'>' + u''.join(xml_of(c, r) for c in ch) + u'</%s>' % op


def ops_in(e, out):
    out.add(e[0])
    for c in e[2]:
        ops_in(c, out)
    return out


# --- declarations ----------------------------------------------------------

def rvalue(r, card, t, n=None):
    """A random value (possibly NULL)"""
    if r.random() < .15:
        return (card, None if card == 'r' else t, None)
    if card == 's':
        return ('s', t, atom(r, t, False))
    if card == 'r':
        d = {}
        for tt in r.sample(TYPES, r.randint(0, 4)):
            d[u'f_' + tt] = (tt, atom(r, tt, False))
        return ('r', None, d or None)
    return (card, t, [atom(r, t, False) for i in range(r.randint(0, 5))] or None)


def values_xml(v, r):
    if v[0] == 's':
        return u'<value>%s</value>' % esc(atext(v[1], v[2], r))
    if v[0] == 'r':
        return u''.join(u'<value baseType="%s" fieldIdentifier="%s">%s</value>' % (b, f, esc(atext(b, x, r))) for f, (b, x) in v[2].items())
    return u''.join(u'<value>%s</value>' % esc(atext(v[1], x, r)) for x in v[2])


def sortkey(v):
    if v[0] == 'm' and v[2]:
        return (v[0], v[1], sorted(v[2]))
    return v


def declare(r, nvars, kinds='RRROT'):
    """(xml of the declarations, env)"""
    env = {'vars': {}, 'templates': set(), 'defaults': {}, 'corrects': {}, 'maps': {}, 'areas': {}, 'patterns': PATTERNS, 'decl': {}, 'tdefaults': {}}
    parts = {'R': [], 'O': [], 'T': []}
    for i in range(nvars):
        k = r.choice(kinds)
        card = r.choice('sssoomr')
        t = r.choice(TYPES)
        if r.random() < .12:
            k, card, t = 'R', r.choice('som'), 'point'
        n = u'%s%d%s' % ({'R': 'RESPONSE', 'O': 'OUT', 'T': 'TPL'}[k], i, r.choice(['', '', '_x', '-y']))
        env['decl'][n] = (k, card, None if card == 'r' else t)
        d = rvalue(r, card, t)
        b = u'' if card == 'r' else u' baseType="%s"' % t
        tag = {'R': 'responseDeclaration', 'O': 'outcomeDeclaration', 'T': 'templateDeclaration'}[k]
        s = u'<%s identifier="%s" cardinality="%s"%s>' % (tag, n, CARDS[card], b)
        if d[2] is not None:
            s += u'<defaultValue>%s</defaultValue>' % values_xml(d, r)
        if k == 'R':
            c = rvalue(r, card, t)
            if c[2] is not None:
                s += u'<correctResponse>%s</correctResponse>' % values_xml(c, r)
            env['corrects'][n] = c
            env['defaults'][n] = d
            env['vars'][n] = d
            if card != 'r' and t != 'duration' and r.random() < .5:
                m = {'default': r.choice([0.0, 1.0, -.5]), 'entries': [(v, r.randint(-8, 12) / 4.0) for v in sorted(freq([atom(r, t, False) for j in range(r.randint(1, 5))]))]}
                if r.random() < .3:
                    m['lower'] = r.choice([0.0, -1.0, .5])
                if r.random() < .3:
                    m['upper'] = r.choice([1.0, 2.5, 3.0])
                s += u'<mapping defaultValue="%s"%s%s>' % (ftext(m['default']), u' lowerBound="%s"' % ftext(m['lower']) if 'lower' in m else u'', u' upperBound="%s"' % ftext(m['upper']) if 'upper' in m else u'')
                s += u''.join(u'<mapEntry mapKey="%s" mappedValue="%s"/>' % (esc(atext(t, v, r)), ftext(x)) for v, x in m['entries']) + u'</mapping>'
                env['maps'][n] = m
            if t == 'point' and card != 'r' and r.random() < .8:
                m = {'default': r.choice([0.0, 1.0, -.5]), 'entries': [(coords(r, True), r.randint(-8, 12) / 4.0) for j in range(r.randint(1, 4))]}
                if r.random() < .3:
                    m['lower'] = r.choice([0.0, -1.0, .5])
                s += u'<areaMapping defaultValue="%s"%s>' % (ftext(m['default']), u' lowerBound="%s"' % ftext(m['lower']) if 'lower' in m else u'')
                s += u''.join(u'<areaMapEntry shape="%s" coords="%s" mappedValue="%s"/>' % (a['shape'], a['coords'], ftext(x)) for a, x in m['entries']) + u'</areaMapping>'
                env['areas'][n] = m
        elif k == 'O':
            env['defaults'][n] = d
            env['vars'][n] = ('s', t, t == 'float' and 0.0 or 0) if card == 's' and t in ('integer', 'float') and d[2] is None else d
        else:
            env['templates'].add(n)
            env['vars'][n] = d
            env['tdefaults'][n] = d
        parts[k].append(s + u'</%s>' % tag)
    return u''.join(parts['R'] + parts['O'] + parts['T']), env


HEAD = u'<?xml version="1.0" encoding="utf-8"?>\n<assessmentItem xmlns="http://www.imsglobal.org/xsd/imsqti_v2p1" identifier="t" title="t" adaptive="%s" timeDependent="false">'
