"""O02 OData expressions evaluate as the specification says

Expressions are generated as trees, printed by an independent printer (own
precedence rules, random spacing, keyword-like property names, redundant
brackets), parsed and evaluated by the library on entities held in an
in-memory container, and the value compared with that of an independent
evaluator of the tree."""

import decimal
import math
import re
import uuid
from lib import Family
import odm
import o01
from o01 import T, plain, same, native, model, single
import pyslet.odata2.csdl as edm
import pyslet.odata2.core as core

PROPERTY = 'O02'

CTX = decimal.Context(prec=120, Emax=999999, Emin=-999999)
NUM = ['Byte', 'Int16', 'Int32', 'Int64', 'Decimal', 'Single', 'Double']      # promotion order
ARITH = ('Int32', 'Int64', 'Single', 'Double', 'Decimal')


class Skip(Exception):
    """The specification or documentation leaves it open"""


class Err(Exception):
    """Evaluation must fail"""


class Range(Exception):
    """The result is out of range: failing is the only option, how is open"""


class V(object):
    """A model value: type name (None for the untyped null), value (None for
    NULL), exactness"""

    def __init__(self, t, v, exact=True):
        self.t, self.v, self.exact = t, v, exact

    def __repr__(self):
        return '%s:%r%s' % (self.t, self.v, '' if self.exact else '~')


class Ent(object):
    def __init__(self, key, props):
        self.key, self.props = key, props

    def __repr__(self):
        return 'Ent%r' % (self.key,)


class Cpx(dict):
    pass


# ------------------------------------------------------------------- schema

TYPES = ['Binary', 'Boolean', 'Byte', 'SByte', 'Int16', 'Int32', 'Int64', 'Single', 'Double', 'Decimal', 'DateTime',
         'DateTimeOffset', 'Time', 'Guid', 'String']
# several property names look like operators, functions, literals
ALIASES = {
    'Binary': ['X', 'Bin', 'Binary'], 'Boolean': ['nott', 'trueness', 'falsey', 'Flag', 'orders'],
    'Byte': ['by_te'], 'SByte': ['sb'], 'Int16': ['i16'], 'Int32': ['length', 'i32', 'year', 'eqq', 'Inf'],
    'Int64': ['i64', 'modulo', 'nano'], 'Single': ['f32', 'infff'], 'Double': ['d', 'dbl'], 'Decimal': ['m', 'divided', 'Subtotal'],
    'DateTime': ['datetime', 'DT'], 'DateTimeOffset': ['datetimeoffset'], 'Time': ['time', 'Time2'], 'Guid': ['guid', 'Gd'],
    'String': ['s', u'caf\xe9', 'nullable', 'asc', 'concat', 'isofx', 'castle', 'android', 'ascending']}
PROPS = [(n, t) for t in TYPES for n in ALIASES[t]]


def plist(names):
    out = []
    for n, t in names:
        f = ''
        if t in ('DateTime', 'DateTimeOffset', 'Time'):
            f = ' Precision="7"'
        out.append(u'<Property Name="%s" Type="Edm.%s" Nullable="true"%s/>' % (n, t, f))
    return u''.join(out)


INNER = [('deep', 'String'), ('n', 'Int32'), ('when', 'DateTime')]
OUTER = [('street', 'String'), ('number', 'Int32'), ('ok', 'Boolean')]
OTHER = [('name', 'String'), ('rank', 'Int32'), ('price', 'Decimal'), ('good', 'Boolean')]
BODY = (u'<EntityContainer Name="C" m:IsDefaultEntityContainer="true">'
        u'<EntitySet Name="Things" EntityType="V.Thing"/><EntitySet Name="Others" EntityType="V.Other"/>'
        u'<AssociationSet Name="A1" Association="V.One"><End Role="T" EntitySet="Things"/><End Role="O" EntitySet="Others"/></AssociationSet>'
        u'<AssociationSet Name="A2" Association="V.Many"><End Role="T" EntitySet="Things"/><End Role="O" EntitySet="Others"/></AssociationSet>'
        u'</EntityContainer>'
        u'<EntityType Name="Thing"><Key><PropertyRef Name="ID"/></Key><Property Name="ID" Type="Edm.Int32" Nullable="false"/>'
        + plist(PROPS) + u'<Property Name="addr" Type="V.Outer" Nullable="false"/>'
        u'<NavigationProperty Name="One" Relationship="V.One" FromRole="T" ToRole="O"/>'
        u'<NavigationProperty Name="Many" Relationship="V.Many" FromRole="T" ToRole="O"/></EntityType>'
        u'<EntityType Name="Other"><Key><PropertyRef Name="ID"/></Key><Property Name="ID" Type="Edm.Int32" Nullable="false"/>'
        + plist(OTHER) + u'</EntityType>'
        u'<ComplexType Name="Outer">' + plist(OUTER) + u'<Property Name="inner" Type="V.Inner" Nullable="false"/></ComplexType>'
        u'<ComplexType Name="Inner">' + plist(INNER) + u'</ComplexType>'
        u'<Association Name="One"><End Role="T" Type="V.Thing" Multiplicity="*"/><End Role="O" Type="V.Other" Multiplicity="0..1"/></Association>'
        u'<Association Name="Many"><End Role="T" Type="V.Thing" Multiplicity="*"/><End Role="O" Type="V.Other" Multiplicity="*"/></Association>')

_state = {}


def rval(r, t):
    """A value of the type, of moderate size most of the time"""
    if t in ('Int32', 'Int64', 'Int16', 'Byte', 'SByte'):
        k = r.random()
        lo, hi = o01.RANGES[t]
        if k < 0.6:
            return max(lo, r.randint(-9, 9))
        if k < 0.85 or t not in ('Int32', 'Int64'):
            return max(lo, min(hi, r.randint(-3000, 3000)))
        return o01.rint(r, lo, hi)
    if t in ('Double', 'Single'):
        if r.random() < 0.6:
            v = r.choice([0.0, 0.5, 1.0, -1.0, 1.5, 2.5, -2.5, 3.0, 10.0, r.randint(-9, 9) / 2.0, r.randint(-999, 999) / 8.0])
        else:
            v = o01.rdouble(r) if t == 'Double' else o01.rdouble(r, o01.MAXS)
        return max(-3.4e38, min(3.4e38, single(v))) if t == 'Single' else v
    if t == 'Decimal':
        if r.random() < 0.8:
            s = '%d' % r.randint(-20, 20)
            if r.random() < 0.6:
                s += r.choice(['.5', '.25', '.1', '.0', '.50', '.999'])
            return s
        return '%d.%d' % (r.randint(-10 ** 8, 10 ** 8), r.randint(0, 10 ** 5))
    if t == 'String':
        k = r.random()
        if k < 0.5:
            return u''.join(r.choice(u"abAB cz'%") for i in range(r.randrange(5)))
        return o01.rtext(r)
    return model(r, t)


def mval(t, raw):
    """Model value from raw"""
    if raw is None:
        return V(t, None)
    if t == 'Decimal':
        return V(t, CTX.create_decimal(raw))
    return V(t, raw)


def world():
    if _state:
        return _state
    import random
    r = random.Random(7)
    doc = odm.load(odm.edmxdoc(BODY))
    c = odm.memcontainer(doc, 'V.C')
    ds = doc.root.DataServices
    _state['doc'] = doc
    _state['container'] = c
    models, ents = [], []
    omodels, oents = [], []
    with ds['V.C.Others'].OpenCollection() as coll:
        for i in range(6):
            e = coll.NewEntity()
            e['ID'].SetFromValue(i)
            mp = {'ID': V('Int32', i)}
            fill(r, e, OTHER, mp)
            coll.InsertEntity(e)
            omodels.append(Ent(i, mp))
    with ds['V.C.Things'].OpenCollection() as coll:
        for i in range(30):
            e = coll.NewEntity()
            e['ID'].SetFromValue(i)
            mp = {'ID': V('Int32', i)}
            fill(r, e, PROPS, mp)
            outer = Cpx()
            fill(r, e['addr'], OUTER, outer)
            inner = Cpx()
            fill(r, e['addr']['inner'], INNER, inner)
            outer['inner'] = inner
            mp['addr'] = outer
            if r.random() < 0.7:
                o = r.choice(omodels)
                e['One'].BindEntity(o.key)
                mp['One'] = o
            else:
                mp['One'] = V(None, None)
            coll.InsertEntity(e)
            models.append(Ent(i, mp))
        # read back: independent of what insertion left in e
        for i in range(30):
            ents.append(coll[i])
    _state.update(models=models, ents=ents)
    return _state


def fill(r, target, names, mp):
    for n, t in names:
        raw = None if r.random() < 0.2 else rval(r, t)
        if raw is not None:
            target[n].SetFromValue(native(t, raw))
        mp[n] = mval(t, raw)


# ---------------------------------------------------------------- the model

def promote(a, b):
    if a == b:
        return a
    if a is None:
        return b
    if b is None:
        return a
    if 'SByte' in (a, b):
        raise Skip
    if a not in NUM or b not in NUM:
        raise Err('incompatible %s %s' % (a, b))
    # Decimal with a floating type promotes to the floating type
    return NUM[max(NUM.index(a), NUM.index(b))]


def cast(x, t):
    """Value of x as type t"""
    if x.t == t or x.v is None:
        return V(t, x.v, x.exact)
    if t in ('Int16', 'Int32', 'Int64'):
        return V(t, x.v, x.exact)
    if t == 'Decimal':
        return V(t, CTX.create_decimal(x.v), x.exact)
    if t == 'Double':
        return V(t, tofloat(x), x.exact)
    if t == 'Single':
        f = tofloat(x)
        return V(t, single(f), x.exact and (single(f) == f or math.isnan(f)))
    raise Skip


def tofloat(x):
    if x.t == 'Decimal':
        return o01.BigDecimal(str(x.v)).doubleValue()
    return float(x.v)


def ranged(t, v, exact=True):
    if t in o01.RANGES:
        lo, hi = o01.RANGES[t]
        if not lo <= v <= hi:
            raise Range
        return V(t, int(v))
    if t == 'Decimal':
        if abs(v) >= CTX.create_decimal('1e27'):
            raise Skip
        if v.as_tuple().exponent < -27 or len(v.as_tuple().digits) > 27:
            exact = False
        return V(t, v, exact)
    if t == 'Single' and not (math.isnan(v) or math.isinf(v)):
        if abs(v) > o01.MAXS:
            raise Skip
        if single(v) != v:
            exact = False
    return V(t, v, exact)


def simple(*vs):
    for v in vs:
        if not isinstance(v, V):
            raise Err('not a simple value')


def arith(op, a, b):
    simple(a, b)
    t = promote(a.t, b.t)
    if t is None:
        return V('Int32', None)
    if t in ('Byte', 'SByte', 'Int16'):
        raise Skip
    if t not in ARITH:
        raise Err('arithmetic on ' + t)
    a, b = cast(a, t), cast(b, t)
    if a.v is None or b.v is None:
        return V(t, None)
    exact = a.exact and b.exact
    x, y = a.v, b.v
    if op == 'mul':
        if t == 'Decimal':
            return ranged(t, CTX.multiply(x, y), exact)
        return finite(t, x * y, exact, x, y)
    if op in ('add', 'sub'):
        if t == 'Decimal':
            v = CTX.add(x, y) if op == 'add' else CTX.subtract(x, y)
            if not exact and abs(v) < (abs(x) + abs(y)) / 10 ** 6:
                raise Skip      # cancellation
            return ranged(t, v, exact)
        v = x + y if op == 'add' else x - y
        if not exact and t in ('Single', 'Double') and abs(v) < (abs(x) + abs(y)) / 10 ** 3:
            raise Skip
        return finite(t, v, exact, x, y)
    if t in ('Single', 'Double') and (math.isnan(x) or math.isinf(x)) and (y == 0 or op == 'mod'):
        raise Skip
    if y == 0:
        raise Err('division by zero')
    if t in ('Int32', 'Int64'):
        q = abs(x) // abs(y)
        m = abs(x) - q * abs(y)
        if op == 'div':
            return ranged(t, -q if (x < 0) != (y < 0) else q)
        return ranged(t, -m if x < 0 else m)
    if t == 'Decimal':
        if op == 'div':
            v = CTX.divide(x, y)
            e = exact and len(v.as_tuple().digits) <= 27
            if v.as_tuple().exponent < -28:
                e = False
            return ranged(t, v, e)
        if not exact:
            raise Skip
        q = CTX.divide_int(x, y)
        if abs(q) >= 10 ** 26:
            raise Skip
        return ranged(t, CTX.subtract(x, CTX.multiply(q, y)), exact)
    if op == 'div':
        return finite(t, x / y, exact, x, y)
    if math.isnan(x) or math.isnan(y):
        return V(t, float('nan'), exact)
    if math.isinf(x) or not exact or t == 'Single' and abs(x) > abs(y) * 1000:
        raise Skip
    return finite(t, math.fmod(x, y), exact, x, y)


def finite(t, v, exact, x, y):
    if t in ('Single', 'Double') and (math.isinf(v) or math.isnan(v)) and not any(math.isinf(i) or math.isnan(i) for i in (x, y)):
        raise Skip
    return ranged(t, v, exact)


def close(a, b):
    if a == b:
        return True
    try:
        return abs(a - b) <= (abs(a) + abs(b)) / 1000000
    except decimal.InvalidOperation:
        return True


def compare(op, a, b):
    if op in ('eq', 'ne') and isinstance(a, Ent) and isinstance(b, Ent):
        res = a.key == b.key and a.props.keys() == b.props.keys()
        return V('Boolean', res == (op == 'eq'))
    simple(a, b)
    t = promote(a.t, b.t)
    if t is None:
        return V('Boolean', op == 'eq')
    if t in ('Byte', 'SByte', 'Int16', 'Time', 'DateTimeOffset'):
        raise Skip
    if t in ('Boolean', 'Binary'):
        if t == 'Boolean' or op not in ('eq', 'ne'):
            raise Skip
    if t in ARITH:
        a, b = cast(a, t), cast(b, t)
    if op in ('eq', 'ne'):
        if (a.v is None) != (b.v is None):
            return V('Boolean', op == 'ne')
        if a.v is None:
            return V('Boolean', op == 'eq')
    elif a.v is None or b.v is None:
        return V('Boolean', False)
    if not (a.exact and b.exact) and close(a.v, b.v):
        raise Skip
    if t == 'Guid' and op not in ('eq', 'ne'):
        raise Skip
    if t == 'String' and op not in ('eq', 'ne') and not all(ord(c) < 0xD800 for c in a.v + b.v):
        raise Skip
    x, y = a.v, b.v
    if t in ('Single', 'Double') and (math.isnan(x) or math.isnan(y)):
        return V('Boolean', op == 'ne')
    return V('Boolean', {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[op])


def logic(op, a, b):
    simple(a, b)
    t = promote(a.t, b.t)
    if t not in (None, 'Boolean'):
        raise Err('logic on ' + t)
    if a.v is None or b.v is None:
        return V('Boolean', False)
    return V('Boolean', (a.v and b.v) if op == 'and' else (a.v or b.v))


def strarg(a):
    simple(a)
    if a.t not in (None, 'String'):
        raise Err('string wanted')
    return a.v


def strict(a, t):
    simple(a)
    if a.t is None:
        raise Skip
    if a.t != t:
        raise Err('%s wanted' % t)
    return a.v


LOW = dict(zip(u'ABCDEFGHIJKLMNOPQRSTUVWXYZ\u00c9', u'abcdefghijklmnopqrstuvwxyz\u00e9'))
UP = dict((b, a) for a, b in LOW.items())


def call(name, args):
    if name in ARITY and len(args) not in ARITY[name]:
        raise Err('wrong number of arguments')
    if name in ('startswith', 'endswith', 'substringof'):
        a, b = strarg(args[0]), strarg(args[1])
        if a is None or b is None:
            return V('Boolean', None)
        if name == 'startswith':
            return V('Boolean', a[:len(b)] == b)
        if name == 'endswith':
            return V('Boolean', len(b) <= len(a) and a[len(a) - len(b):] == b)
        return V('Boolean', a in b)
    if name == 'indexof':
        a, b = strarg(args[0]), strarg(args[1])
        if a is None or b is None:
            return V('Int32', None)
        for i in range(len(a) - len(b) + 1):
            if a[i:i + len(b)] == b:
                return V('Int32', i)
        return V('Int32', -1)
    if name == 'replace':
        a, b, c = [strarg(x) for x in args]
        if a is None or b is None or c is None:
            return V('String', None)
        if not b or any(ord(ch) > 0xFFFF for ch in a + b + c):
            raise Skip
        return V('String', c.join(split(a, b)))
    if name in ('tolower', 'toupper', 'trim'):
        a = strarg(args[0])
        if a is None:
            return V('String', None)
        if name == 'trim':
            if u'\u2028' in a:
                raise Skip
            return V('String', re.sub(u'^[ \t\r\n]+|[ \t\r\n]+$', u'', a))
        d = LOW if name == 'tolower' else UP
        return V('String', u''.join(d.get(ch, ch) for ch in a))
    if name == 'substring':
        a = strict(args[0], 'String')
        b = strict(args[1], 'Int32')
        c = strict(args[2], 'Int32') if len(args) > 2 else None
        if len(args) > 2 and c is None:
            raise Skip
        if a is None or b is None:
            return V('String', None)
        if b < 0 or c is not None and c < 0:
            raise Skip
        return V('String', a[b:] if c is None else a[b:][:c])
    if name == 'concat':
        a, b = strict(args[0], 'String'), strict(args[1], 'String')
        return V('String', None if a is None or b is None else a + b)
    if name == 'length':
        a = strict(args[0], 'String')
        return V('Int32', None if a is None else len(a))
    if name in ('year', 'month', 'day', 'hour', 'minute', 'second'):
        a = strict(args[0], 'DateTime')
        return V('Int32', None if a is None else a[('year', 'month', 'day', 'hour', 'minute', 'second').index(name)])
    # round, floor, ceiling
    a = args[0]
    simple(a)
    if a.t in ('SByte',):
        raise Skip
    if a.t in (None, 'Decimal', 'Int16', 'Int32', 'Int64'):
        if a.v is None:
            return V('Decimal', None)
        x = CTX.create_decimal(a.v)
        if not a.exact:
            raise Skip
        f = CTX.create_decimal(int(math.floor(0))) + floordec(x)
        if name == 'floor':
            v = f
        elif name == 'ceiling':
            v = -floordec(-x)
        else:
            v = floordec(abs(x) + decimal.Decimal('0.5'))
            v = -v if x < 0 else v
        return ranged('Decimal', CTX.create_decimal(v))
    if a.t in ('Byte', 'Single', 'Double'):
        if a.v is None:
            return V('Double', None)
        x = float(a.v)
        if not a.exact:
            raise Skip
        if math.isnan(x) or math.isinf(x) or abs(x) > 2.0 ** 53:
            return V('Double', x)
        i = int(math.floor(x))
        if name == 'floor':
            v = i
        elif name == 'ceiling':
            v = i if i == x else i + 1
        else:
            d = x - i
            v = i if d < 0.5 else i + 1 if d > 0.5 else i + i % 2
        return V('Double', float(v))
    raise Err('number wanted')


def floordec(x):
    """Floor as exact integer decimal"""
    n = int(x)      # truncates
    if n > x:
        n -= 1
    return decimal.Decimal(n)


def split(a, b):
    out, i, start = [], 0, 0
    while i <= len(a) - len(b):
        if a[i:i + len(b)] == b:
            out.append(a[start:i])
            i += len(b)
            start = i
        else:
            i += 1
    out.append(a[start:])
    return out


ARITY = {'startswith': (2,), 'endswith': (2,), 'substringof': (2,), 'indexof': (2,), 'replace': (3,), 'tolower': (1,),
         'toupper': (1,), 'trim': (1,), 'substring': (2, 3), 'concat': (2,), 'length': (1,), 'year': (1,), 'month': (1,),
         'day': (1,), 'hour': (1,), 'minute': (1,), 'second': (1,), 'round': (1,), 'floor': (1,), 'ceiling': (1,)}


def ev(node, ctx):
    """All operands are evaluated, so any that fails makes the whole fail; a
    Skip anywhere makes the whole open"""
    k = node[0]
    if k == 'lit':
        if node[1].t == 'Single' and node[1].v is not None:
            # whether literals are rounded to single precision is left open
            x = node[1].v
            return V('Single', x, math.isnan(x) or math.isinf(x) or float(unicode_float(x, 'Single')) == x)
        return node[1]
    if k == 'prop':
        if isinstance(ctx, V):
            if ctx.v is None:
                return V(None, None)
            raise Err('member of simple value')
        props = ctx.props if isinstance(ctx, Ent) else ctx
        if node[1] == 'Many' and isinstance(ctx, Ent):
            raise Err('collection')
        if node[1] not in props:
            raise Err('no such property')
        return props[node[1]]
    if k == 'member':
        return ev(node[2], ev(node[1], ctx))
    if k == 'neg':
        a = ev(node[1], ctx)
        simple(a)
        if a.t in ('SByte', 'Byte', 'Int16'):
            if a.t == 'SByte':
                raise Skip
            a = V('Int32', a.v)
        if a.t == 'Single':
            a = V('Double', a.v, a.exact)
        if a.t is None:
            return V('Int32', None)
        if a.t not in ARITH:
            raise Err('negate')
        if a.v is None:
            return a
        return ranged(a.t, a.v.copy_negate() if a.t == 'Decimal' else 0 - a.v, a.exact)
    if k == 'not':
        a = ev(node[1], ctx)
        simple(a)
        if a.t not in (None, 'Boolean'):
            if a.v is None:
                raise Skip
            raise Err('not')
        return V('Boolean', None if a.v is None else not a.v)
    if k == 'call':
        return call(node[1], [ev(x, ctx) for x in node[2]])
    if k in ('isof', 'cast'):
        a = ctx if node[1] is None else ev(node[1], ctx)
        return typing(k, a, node[2])
    a, b = ev(node[1], ctx), ev(node[2], ctx)
    if k in ('and', 'or'):
        return logic(k, a, b)
    if k in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
        return compare(k, a, b)
    return arith(k, a, b)


def typing(k, a, name):
    short = name[4:] if name.startswith('Edm.') else None
    if isinstance(a, Ent):
        fq = 'V.Thing' if 'addr' in a.props else 'V.Other'
        if k == 'isof':
            return V('Boolean', fq == name)
        if fq == name:
            return a
        raise Err('cast entity')
    if isinstance(a, Cpx):
        raise Skip
    if a.v is None:
        if k == 'isof':
            return V('Boolean', False)
        return V(short if short in TYPES else None, None)
    if short not in TYPES:
        raise Err('unknown type')
    if 'SByte' in (a.t, short) and a.t != short:
        raise Skip
    try:
        ok = promote(short, a.t) == short
    except Err:
        ok = False
    if k == 'isof':
        return V('Boolean', ok)
    if not ok:
        raise Err('cast')
    return cast(a, short)


# --------------------------------------------------------------- generation

def gen(r, want, depth):
    """A tree expected to be of the type (usually)"""
    if r.random() < 0.04:
        want = r.choice(TYPES + ['entity', 'complex', 'bogus'])
    if want == 'entity':
        return ('prop', r.choice(['One', 'Many', 'One']))
    if want == 'complex':
        return ('prop', 'addr') if r.random() < 0.5 else ('member', ('prop', 'addr'), ('prop', 'inner'))
    if want == 'bogus':
        return ('prop', r.choice(['nosuch', 'One2', 'street']))
    if want == 'num':
        want = r.choice(['Int32', 'Int32', 'Int64', 'Decimal', 'Double', 'Single', 'Byte', 'Int16'])
    if depth <= 0 or r.random() < 0.12:
        return leaf(r, want)
    d = depth - 1
    k = r.random()
    if k < 0.04:
        return ('cast', gen(r, want, d), 'Edm.' + want)
    if want == 'Boolean':
        if k < 0.25:
            return (r.choice(['and', 'or']), gen(r, 'Boolean', d), gen(r, 'Boolean', d))
        if k < 0.4:
            return ('not', gen(r, 'Boolean', d))
        if k < 0.5:
            f = r.choice(['startswith', 'endswith', 'substringof'])
            return ('call', f, [gen(r, 'String', d), gen(r, 'String', d)])
        if k < 0.55:
            x = None if r.random() < 0.2 else gen(r, r.choice(TYPES + ['entity']), d)
            return ('isof', x, r.choice(['Edm.' + r.choice(TYPES), 'Edm.' + r.choice(TYPES), 'V.Thing', 'V.Other']))
        t = r.choice(['num', 'num', 'num', 'String', 'String', 'DateTime', 'Guid', 'Binary', 'entity'])
        op = r.choice(['eq', 'ne', 'lt', 'le', 'gt', 'ge'] if t in ('num', 'String', 'DateTime') else ['eq', 'ne'])
        return (op, gen(r, t, d), gen(r, t, d))
    if want in ARITH:
        if k < 0.2:
            return ('neg', gen(r, want, d))
        if want == 'Int32' and k < 0.4:
            f = r.choice(['length', 'indexof', 'year', 'month', 'day', 'hour', 'minute', 'second'])
            if f == 'length':
                return ('call', f, [gen(r, 'String', d)])
            if f == 'indexof':
                return ('call', f, [gen(r, 'String', d), gen(r, 'String', d)])
            return ('call', f, [gen(r, 'DateTime', d)])
        if want in ('Decimal', 'Double') and k < 0.4:
            return ('call', r.choice(['round', 'floor', 'ceiling']), [gen(r, r.choice([want, want, 'num']), d)])
        op = r.choice(['add', 'sub', 'mul', 'div', 'mod', 'sub', 'div'])
        other = r.choice([want, want, 'num'])
        return (op, gen(r, want, d), gen(r, other, d)) if r.random() < 0.5 else (op, gen(r, other, d), gen(r, want, d))
    if want == 'String':
        f = r.choice(['replace', 'tolower', 'toupper', 'trim', 'substring', 'substring', 'concat', 'concat'])
        n = {'replace': 3, 'concat': 2}.get(f, 1)
        args = [gen(r, 'String', d) for i in range(n)]
        if f == 'substring':
            args.append(('lit', V('Int32', r.randrange(5))) if r.random() < 0.7 else gen(r, 'Int32', d))
            if r.random() < 0.5:
                args.append(('lit', V('Int32', r.randrange(4))) if r.random() < 0.7 else gen(r, 'Int32', d))
        if r.random() < 0.02:
            args = args[1:] if r.random() < 0.5 and len(args) > 1 else args + [gen(r, 'String', 0)]
        return ('call', f, args)
    return leaf(r, want)


def leaf(r, t):
    k = r.random()
    if k < 0.05:
        return ('lit', V(None, None))
    if k < 0.5 and t not in ('Byte', 'SByte', 'Int16'):
        return ('lit', mval(t, rval(r, t)))
    if k < 0.6 and t in dict((b, a) for a, b in OUTER):
        return ('member', ('prop', 'addr'), ('prop', dict((b, a) for a, b in OUTER)[t]))
    if k < 0.7 and t in dict((b, a) for a, b in INNER):
        return ('member', ('member', ('prop', 'addr'), ('prop', 'inner')), ('prop', dict((b, a) for a, b in INNER)[t]))
    if k < 0.8 and t in dict((b, a) for a, b in OTHER):
        return ('member', ('prop', 'One'), ('prop', dict((b, a) for a, b in OTHER)[t]))
    return ('prop', r.choice(ALIASES[t]))


# ----------------------------------------------------------------- printing

PREC = {'or': 1, 'and': 2, 'eq': 3, 'ne': 3, 'lt': 4, 'le': 4, 'gt': 4, 'ge': 4, 'add': 5, 'sub': 5, 'mul': 6, 'div': 6, 'mod': 6,
        'neg': 7, 'not': 7}


def ws(r, must=False):
    if must:
        return r.choice([' ', ' ', ' ', '  ', '\t', ' \t '])
    return r.choice(['', '', '', ' ', '\t'])


def littext(r, v):
    t = v.t
    if t is None or v.v is None:
        return r.choice(['null', 'null', 'NULL', 'Null'])
    x = v.v
    if t == 'Boolean':
        return 'true' if x else 'false'
    if t == 'Int32':
        return '%d' % x
    if t == 'Int64':
        return '%d%s' % (x, r.choice('Ll'))
    if t == 'Decimal':
        return '{0:f}'.format(x) + r.choice('Mm')
    if t in ('Double', 'Single'):
        sfx = r.choice('Dd') if t == 'Double' else r.choice('Ff')
        if math.isnan(x) or math.isinf(x):
            return {'nan': 'Nan', 'inf': 'INF', '-inf': '-INF'}[repr(x)] + sfx
        lo = unicode_float(x, t)
        return lo + sfx
    if t == 'String':
        return u"'%s'" % x.replace("'", "''") if all(ord(c) < 0x10000 for c in x) else u"'" + u''.join(u"''" if c == u"'" else c for c in x) + u"'"
    if t == 'Binary':
        return "%s'%s'" % (r.choice(['X', 'binary']), ''.join('%02X' % ord(c) for c in x))
    if t == 'Guid':
        return "guid'%s'" % uuid.UUID(hex=x)
    s = ''
    if t != 'Time':
        s = '%04d-%02d-%02dT' % x[:3]
        x = x[3:]
    s += '%02d:%02d' % x[:2]
    if x[2] or x[3] or t != 'DateTime' or r.random() < 0.5:
        s += ':%02d' % x[2]
        if x[3]:
            s += '.%s' % ('%07d' % x[3]).rstrip('0')
    if t == 'DateTimeOffset':
        z = x[4]
        s += '%s%02d:%02d' % ('-' if z < 0 else '+', abs(z) // 60, abs(z) % 60)
    return "%s'%s'" % (t.lower(), s)


def unicode_float(x, t):
    """A literal the EDM grammar allows that reads as exactly x"""
    s = repr(x) if t == 'Double' else o01.java.lang.Float.toString(o01.java.lang.Float(x))
    m = re.match(r'(-?)(\d+)\.(\d+)(?:[eE]([-+]?\d+))?\Z', s)
    if m is None:
        m = re.match(r'(-?)(\d+)()[eE]([-+]?\d+)\Z', s)
    sign, i, f, e = m.groups()
    if e is None:
        return '%s%s.%s' % (sign, i, f)
    return '%s%s.%se%d' % (sign, i, f or '0', int(e))


def show(r, n, prec=0, redundant=0.08):
    k = n[0]
    p = 9
    if k == 'lit':
        s = littext(r, n[1])
    elif k == 'prop':
        s = n[1]
    elif k == 'member':
        a = show(r, n[1], 9, redundant)
        s = u'%s%s/%s%s' % (a, ws(r), ws(r), show(r, n[2], 9, 0))
    elif k == 'neg':
        p = 7
        s = u'-' + ws(r) + (u'(%s)' % show(r, n[1], 0, redundant) if n[1][0] == 'lit' else show(r, n[1], 7, redundant))
    elif k == 'not':
        p = 7
        s = u'not' + ws(r, True) + show(r, n[1], 7, redundant)
    elif k == 'call':
        s = u'%s%s(%s)' % (n[1], ws(r), u','.join(ws(r) + show(r, x, 0, redundant) + ws(r) for x in n[2]))
    elif k in ('isof', 'cast'):
        name = u"'%s'" % n[2]
        s = u'%s%s(%s%s%s)' % (k, ws(r), ws(r), name if n[1] is None else
                               show(r, n[1], 0, redundant) + ws(r) + u',' + ws(r) + name, ws(r))
    else:
        p = PREC[k]
        s = show(r, n[1], p, redundant) + ws(r, True) + k + ws(r, True) + show(r, n[2], p + 1, redundant)
    if p < prec or r.random() < redundant:
        s = u'(%s%s%s)' % (ws(r), s, ws(r))
    return s


# ----------------------------------------------------------------- families

OK_ERRORS = (core.EvaluationError,)


def evaluate(e, ent):
    """('value', x) | ('err', exception)"""
    try:
        return 'value', e.Evaluate(ent)
    except core.EvaluationError as x:
        return 'err', x
    except ValueError as x:
        return 'range', x
    except ArithmeticError as x:
        return 'range', x


def agree(m, got, want, mech, ctx):
    kind, g = got
    if isinstance(want, Err):
        m.count('errors')
        return m.check(kind == 'err', mech + '-no-error', kind, repr(g), want, ctx)
    if isinstance(want, Range):
        m.count('ranges')
        return m.check(kind in ('err', 'range'), mech + '-no-range-error', kind, repr(getattr(g, 'value', g)), ctx)
    if kind != 'value':
        m.violate(mech + '-error', '%s %r want %r %s' % (kind, g, want, ctx))
        return False
    if isinstance(want, Ent):
        return m.check(isinstance(g, edm.Entity) and g.Key() == want.key, mech + '-entity', g, want, ctx)
    if isinstance(want, Cpx):
        return m.check(isinstance(g, edm.Complex) and sorted(g.iterkeys()) == sorted(want), mech + '-complex', g, ctx)
    if not m.check(isinstance(g, edm.SimpleValue), mech + '-kind', g, want, ctx):
        return False
    tc = None if want.t is None else getattr(T, want.t)
    if not m.check(g.typeCode == tc, mech + '-type', g.typeCode, want, ctx):
        return False
    if want.v is None:
        m.count('nulls')
        return m.check(g.value is None, mech + '-not-null', repr(g.value), want, ctx)
    if not m.check(g.value is not None, mech + '-null', want, ctx):
        return False
    try:
        p = plain(want.t, g.value)
    except (AssertionError, AttributeError):
        m.violate(mech + '-pytype', '%r %s' % (g.value, ctx))
        return False
    if not want.exact:
        if isinstance(want.v, decimal.Decimal):
            return m.check(abs(p - want.v) <= abs(want.v) / 10 ** 15, mech + '-value', p, want, ctx)
        return m.check(same('Single', p, want.v) or abs(p - want.v) <= abs(want.v) * 1e-5, mech + '-value', p, want, ctx)
    if want.t == 'Decimal':
        if p == want.v:
            return True
        # results are held to 28 digits
        return m.check(abs(p - want.v) <= abs(want.v) / 10 ** 26, mech + '-value', p, want, ctx)
    return m.check(same(want.t, p, want.v), mech + '-value', repr(p), want, ctx)


def predict(tree, ctx):
    try:
        return ev(tree, ctx)
    except (Err, Range) as e:
        return e


def size(t):
    if not isinstance(t, (tuple, list)):
        return 0
    return 1 + sum(size(x) for x in t)


def f_eval(m, r):
    """Parse, evaluate, write, parse, evaluate"""
    st = world()
    tree = gen(r, r.choice(['Boolean', 'Boolean', 'num', 'String', r.choice(TYPES)]), r.randint(0, 4))
    text = show(r, tree)
    m.key(text)
    m.sample(text)
    try:
        e = core.CommonExpression.FromString(text)
    except ValueError as x:
        m.violate('refused', '%r %s' % (text, x))
        return
    t2 = unicode(e)
    try:
        e2 = core.CommonExpression.FromString(t2)
    except ValueError as x:
        m.violate('written-refused', '%r from %r: %s' % (t2, text, x))
        return
    m.check(unicode(e2) == t2, 'written-unstable', t2, unicode(e2))
    for i in r.sample(range(30), 3):
        try:
            want = predict(tree, st['models'][i])
        except Skip:
            m.count('open')
            continue
        ctx = (text, i)
        agree(m, evaluate(e, st['ents'][i]), want, 'eval', ctx)
        agree(m, evaluate(e2, st['ents'][i]), want, 'rewritten', ctx + (t2,))
        m.count('evaluated')
        if isinstance(want, V) and want.v is not None:
            m.count('values')
            m.count('op_' + tree[0])
    # without an entity properties cannot be evaluated, all else can


def f_precedence(m, r):
    """Chains of operators without brackets"""
    st = world()
    n = r.randint(2, 7)
    # numeric chain inside a relational inside logic
    def num():
        k = r.random()
        if k < 0.5:
            x = ('lit', V('Int32', r.randint(0, 9)))
        elif k < 0.8:
            x = ('prop', 'ID')
        else:
            x = ('call', 'length', [('lit', V('String', u'a' * r.randrange(5)))])
        while r.random() < 0.2:
            x = ('neg', x)
        return x

    def build(items, ops):
        """own precedence climbing over the flat list"""
        out = [items[0]]
        stack = []

        def reduce_():
            b = out.pop()
            a = out.pop()
            out.append((stack.pop(), a, b))
        for op, it in zip(ops, items[1:]):
            while stack and PREC[stack[-1]] >= PREC[op]:
                reduce_()
            stack.append(op)
            out.append(it)
        while stack:
            reduce_()
        return out[0]
    nums = [num() for i in range(n)]
    ops = [r.choice(['add', 'sub', 'mul', 'div', 'mod']) for i in range(n - 1)]
    items, allops = list(nums), list(ops)
    if r.random() < 0.6:
        for j in range(r.randint(1, 3)):
            allops.append(r.choice(['lt', 'gt', 'le', 'ge', 'eq', 'ne']))
            items.append(num())
            for i in range(r.randrange(3)):
                allops.append(r.choice(['add', 'sub', 'mul']))
                items.append(num())
            allops.append(r.choice(['and', 'or']))
            nots = ('lit', V('Boolean', r.random() < 0.5))
            while r.random() < 0.4:
                nots = ('not', nots)
            items.append(nots)
            if j:
                pass
            allops.append(r.choice(['and', 'or']))
            items.append(num())
        allops += [r.choice(['lt', 'gt', 'eq'])]
        items.append(num())
    tree = build(items, allops)
    text = show(r, items[0], 9, 0)
    for op, it in zip(allops, items[1:]):
        text += ws(r, True) + op + ws(r, True) + show(r, it, 7 if it[0] in ('neg', 'not') else 9, 0)
    if items[0][0] in ('neg', 'not'):
        text = text
    m.key(text)
    m.sample(text)
    try:
        e = core.CommonExpression.FromString(text)
    except ValueError as x:
        m.violate('chain-refused', '%r %s' % (text, x))
        return
    for i in r.sample(range(30), 2):
        try:
            want = predict(tree, st['models'][i])
        except Skip:
            continue
        agree(m, evaluate(e, st['ents'][i]), want, 'chain', (text, i))
        m.count('chains')


def tokens(s):
    return re.findall(u"(?:datetimeoffset|datetime|time|guid|binary|X)?'(?:[^']|'')*'|[A-Za-z_0-9.\u00e9+-]+|\\s+|.", s)


def f_malformed(m, r):
    """Expressions broken in a known way are refused"""
    tree = gen(r, r.choice(['Boolean', 'num', 'String']), r.randint(1, 3))
    text = show(r, tree)
    k = r.randrange(12)
    inner = r.choice(["(%s", "%s)", "((%s)", "length(%s", "substring(%s,1", "concat(%s,", "isof(%s,'Edm.Int32'", "cast(%s 'Edm.Int32')",
                      "isof(%s", "(1 add (%s)", "not (%s", "-(%s"])
    op = r.choice(['add', 'sub', 'mul', 'div', 'mod', 'eq', 'ne', 'lt', 'le', 'gt', 'ge', 'and', 'or'])
    lit = '5'
    bad = [lambda: inner % text, lambda: text + ' ' + op, lambda: text + ' ' + op + ' ' + op + ' ' + lit,
           lambda: text + ' ' + lit, lambda: 'nosuch%d(%s)' % (r.randrange(9), text), lambda: text + r.choice([',', ' ,', '()', "'", '!', '#', ' ;']),
           lambda: "(%s,%s)" % (text, lit), lambda: "length(%s,)" % text, lambda: "length()", lambda: "()",
           lambda: text + ' ' + r.choice(['not', 'isof', 'cast', 'length', 'ADD', 'Eq', 'AND', 'xor', 'member', 'negate', 'methodCall', 'paren', 'boolAnd']) + ' ' + lit,
           lambda: text + r.choice(['/', ' / ', ' and not', ' add -', ' eq (', " eq 'abc", ' eq 5L5', ' eq 1.2.3', " eq X'0'", " eq guid'12'",
                                    " eq datetime'2000-13-01T00:00'", ' eq 99999999999', ' eq 1e', " eq time'25:00:00'"])][k]()
    if r.random() < 0.1:
        bad = r.choice([u'', u' ', u'\t', u')', u'and', u'eq 5', u'add 5', u"'", u'5 5', u"isof()", u"cast('Edm.Int32',5)", u'isof(5,Edm.Int32)',
                        u"cast(5)", u'length 5', u"concat('a' 'b')", u"concat('a','b'", u'not', u'-', u'- ', u'not  '])
        # a bare word is a property, so these two are fine
        if bad == u'and' or bad == u'not':
            bad = u'and and'
    m.key(bad)
    m.sample(bad)
    try:
        e = core.CommonExpression.FromString(bad)
    except ValueError:
        m.count('refused')
        return
    m.violate('accepted', '%r as %r' % (bad, unicode(e)))


def f_orderby(m, r):
    st = world()
    n = r.randint(1, 4)
    parts, trees, dirs = [], [], []
    for i in range(n):
        tree = gen(r, r.choice(['num', 'String', 'DateTime', 'Boolean']), r.randint(0, 2))
        d = r.choice([1, 1, -1])
        s = show(r, tree)
        sfx = r.choice(['', ' asc', '\tASC ', ' Asc']) if d > 0 else r.choice([' desc', ' DESC', '  Desc '])
        parts.append(ws(r) + s + sfx + ws(r))
        trees.append(tree)
        dirs.append(d)
    text = u','.join(parts)
    m.key(text)
    m.sample(text)
    try:
        got = core.CommonExpression.OrderByFromString(text)
        t2 = core.CommonExpression.OrderByToString(got)
        got2 = core.CommonExpression.OrderByFromString(t2)
    except ValueError as x:
        m.violate('orderby-refused', '%r %s' % (text, x))
        return
    for g in (got, got2):
        if not m.check([x[1] for x in g] == dirs, 'orderby-directions', text, [x[1] for x in g], t2):
            return
        i = r.randrange(30)
        for (e, d), tree in zip(g, trees):
            try:
                want = predict(tree, st['models'][i])
            except Skip:
                continue
            agree(m, evaluate(e, st['ents'][i]), want, 'orderby', (text, i))
            m.count('orderings')
    bad = r.choice([text + ',', ',' + text, text + ' up', text + ' asc desc', text + ' asc asc', text + ' desc 5', '', 'desc desc desc'])
    try:
        core.CommonExpression.OrderByFromString(bad)
        m.violate('orderby-accepted', repr(bad))
    except ValueError:
        m.count('orderby_refused')


FAMILIES = [
    Family('eval', f_eval, 9000, 120000, {'evaluated': 15000, 'values': 8000, 'nulls': 2000, 'errors': 300, 'ranges': 20, 'op_and': 300, 'op_not': 200,
                                          'op_neg': 150, 'op_call': 600, 'op_div': 100, 'op_mod': 80, 'op_eq': 200, 'op_isof': 100, 'op_cast': 80}),
    Family('precedence', f_precedence, 4000, 50000, {'chains': 6000}),
    Family('malformed', f_malformed, 3000, 40000, {'refused': 2500}),
    Family('orderby', f_orderby, 2000, 25000, {'orderings': 5000, 'orderby_refused': 1500}),
]
