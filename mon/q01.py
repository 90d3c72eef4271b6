"""Q01 QTI expressions evaluate as the specification says"""

import StringIO
import qx
from lib import Family
import pyslet.qtiv2.core as core
import pyslet.qtiv2.variables as variables
import pyslet.qtiv2.expressions as expressions
import pyslet.imsqtiv2p1 as qti
import pyslet.html40_19991224 as html

PROPERTY = 'Q01'
CNAME = {None: None, variables.Cardinality.single: 's', variables.Cardinality.ordered: 'o', variables.Cardinality.multiple: 'm', variables.Cardinality.record: 'r'}
BT = variables.BaseType


def bname(b):
    return None if b is None else BT.EncodeValue(b)


def atomic(b, v):
    return unicode(v) if b == 'uri' else v


def actual(v):
    """A Value instance as (card, base, val)"""
    c, b = CNAME[v.Cardinality()], bname(v.baseType)
    x = v.value
    if x is None:
        return (c, b, None)
    if c == 's':
        return (c, b, atomic(b, x))
    if c == 'o':
        return (c, b, [atomic(b, i) for i in x])
    if c == 'm':
        out = []
        for k, n in x.items():
            out.extend([atomic(b, k)] * n)
        return (c, b, out)
    return (c, b, dict((f, (bname(i.baseType), atomic(bname(i.baseType), i.value))) for f, i in x.items()))


def close(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return a == b or a != a and b != b or abs(a - b) <= 1e-9 * max(abs(a), abs(b))
    return type(a) is type(b) and a == b if isinstance(a, bool) or isinstance(b, bool) else a == b


def skey(v):
    return (v, repr(v)) if v == v else (float('inf'), 'nan')


def agree(got, want):
    if got[:2] != want[:2] or (got[2] is None) != (want[2] is None):
        return False
    if got[2] is None:
        return True
    if got[0] == 's':
        return close(got[2], want[2])
    if got[0] == 'r':
        return sorted(got[2]) == sorted(want[2]) and all(got[2][f][0] == want[2][f][0] and close(got[2][f][1], want[2][f][1]) for f in got[2])
    a, b = got[2], want[2]
    if got[0] == 'm':
        a, b = sorted(a, key=skey), sorted(b, key=skey)
    return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))


def load(src):
    doc = qti.QTIDocument() if hasattr(qti, 'QTIDocument') else core.QTIDocument()
    doc.Read(src=StringIO.StringIO(src.encode('utf-8')))
    return doc


def fam_expr(m, r):
    decl, env = qx.declare(r, r.randint(2, 9))
    g = qx.Gen(r, env)
    exprs = []
    for i in range(12):
        t = r.choice(['boolean'] * 6 + ['integer', 'float'] * 3 + qx.TYPES)
        card = r.choice('sssssom')
        exprs.append(g.gen(t, card, r.choice([1, 2, 2, 3, 4])))
    src = qx.HEAD % 'false' + decl + u'<outcomeDeclaration identifier="Z" cardinality="single" baseType="float"/>'
    src += u'<responseProcessing>' + u''.join(u'<setOutcomeValue identifier="Z">%s</setOutcomeValue>' % qx.xml_of(e, r) for e in exprs) + u'</responseProcessing></assessmentItem>'
    m.key(src)
    doc = load(src)
    state = variables.ItemSessionState(doc.root)
    state.BeginSession()
    state.BeginAttempt()
    for n, v in env['vars'].items():
        got = actual(state[n])
        m.check(agree(got, v), 'initial', n, got, v, src)
    rules = doc.root.ResponseProcessing.ResponseRule
    m.require(len(rules) == len(exprs), 'rules', len(rules), src)
    for e, rule in zip(exprs, rules):
        x = qx.xml_of(e, r)
        try:
            want = qx.ev(e, env)
        except qx.Refuse:
            want = 'refused'
        except qx.Unknown:
            m.count('unknown')
            continue
        top = e[0]
        try:
            v = rule.Expression.Evaluate(state)
        except core.ProcessingError:
            m.check(want == 'refused', 'refused:' + top, x, want, decl)
            m.count('refused')
            continue
        except Exception as ex:
            m.violate('crash:' + top, '%r\n%s\nwant %r\n%s' % (ex, x, want, decl))
            continue
        got = actual(v)
        if want == 'refused':
            m.violate('not refused:' + top, '%r\n%s\n%s' % (got, x, decl))
            continue
        m.check(agree(got, want), 'value:' + top, got, want, x, decl)
        m.count('evaluated')
        m.count('nulls' if want[2] is None else 'values')
        for o in qx.ops_in(e, set()):
            m.count('op_' + o)
    # evaluation leaves the state as it was
    for n, v in env['vars'].items():
        m.check(agree(actual(state[n]), v), 'disturbed', n, v, src)
    for n, v in env['corrects'].items():
        m.check(agree(actual(state[n + '.CORRECT']), v), 'disturbed', n, v, src)


BADTEXT = {'boolean': ['yes', '', 'TRUE', '2', 'true false', 'T'], 'directedPair': ['A', 'A B C', '', '1 2', 'A -B', 'A,B'], 'pair': ['A', 'A B C', '', '1 2', '*x y'],
           'duration': ['x', '', '1,5', 'P1D', '1 2', '--1'], 'float': ['x', '', '1,5', '1e', 'infinity', '0x10', '1 2', '.', '+INF+'], 'identifier': ['', '1a', 'a b', ':x', 'a:b', '-x', ' A'],
           'integer': ['', '1.0', 'x', '1e3', '2147483648', '-2147483649', '99999999999', '1 2', '0x1', '--1'], 'point': ['1', '1 2 3', '', '1.0 2', 'a b', '2147483648 1', '1,2'], 'string': [], 'uri': []}


def fam_value(m, r):
    """Values from and to text, containers and records as models of themselves"""
    t = r.choice(qx.TYPES)
    b = BT.DecodeLowerValue(t.lower()) if t not in BT.decode else BT.decode[t]
    c = r.random()
    if c < .35:
        x = qx.atom(r, t)
        txt = qx.atext(t, x, r)
        m.key((t, txt))
        v = variables.SingleValue.NewValue(b, txt)
        m.check(agree(actual(v), ('s', t, x)), 'parse', t, txt, actual(v))
        form = unicode(v)
        m.check(isinstance(form, unicode), 'form type', t, form)
        w = variables.SingleValue.NewValue(b)
        w.SetValue(form)
        m.check(agree(actual(w), ('s', t, x)) and (w.value == v.value or x != x), 'round trip', t, txt, form, actual(w))
        v.SetValue(form)
        m.check(v.value == w.value or x != x, 'reset', t, txt, form)
        k = variables.Value.CopyValue(v)
        m.check(agree(actual(k), ('s', t, x)) and k is not v and type(k) is type(v), 'copy', t, txt)
        v.SetValue(None)
        m.check(v.IsNull() and not v and not k.IsNull() and unicode(v) == u'', 'null', t)
        m.count('texts')
    elif c < .5 and BADTEXT[t]:
        bad = r.choice(BADTEXT[t])
        m.key((t, bad))
        v = variables.SingleValue.NewValue(b)
        x = qx.atom(r, t, False)
        v.SetValue(qx.atext(t, x))
        m.raises((ValueError,), 'bad text accepted:' + t, v.SetValue, unicode(bad))
        m.check(agree(actual(v), ('s', t, x)), 'partly set', t, bad, actual(v))
        m.raises((ValueError,), 'bad text accepted:' + t, variables.SingleValue.NewValue, b, unicode(bad))
        m.count('bad')
    elif c < .75:
        card = r.choice('om')
        cl = variables.OrderedContainer if card == 'o' else variables.MultipleContainer
        l = [None if r.random() < .15 else qx.atom(r, t, False) for i in range(r.randint(0, 7))]
        m.key((t, card, tuple(l)))
        v = cl(b) if r.random() < .7 else cl()
        f = lambda z: None if z is None else qx.atext(t, z, r) if r.random() < .5 or t == 'uri' else z
        arg = [f(z) for z in l]
        arg = r.choice([list, tuple, iter])(arg)
        if v.baseType is None:
            v.SetValue(arg, b)
        else:
            v.SetValue(arg)
        want = (card, t, [z for z in l if z is not None] or None)
        m.check(agree(actual(v), want), 'container', actual(v), want)
        got = [atomic(t, z) for z in v.GetValues()]
        m.check(agree((card, t, got or None), want), 'getvalues', got, want)
        unicode(v)
        k = variables.Value.CopyValue(v)
        m.check(agree(actual(k), want), 'container copy', actual(k), want)
        if BADTEXT[t]:
            m.raises((ValueError,), 'bad member accepted', v.SetValue, [qx.atext(t, qx.atom(r, t, False)), unicode(r.choice(BADTEXT[t]))])
            m.check(agree(actual(v), want), 'container partly set', actual(v), want)
        v.SetValue(None)
        m.check(agree(actual(k), want) and v.IsNull(), 'copy shared', actual(k), want)
        m.count('containers')
    else:
        model = {}
        v = variables.RecordContainer()
        hist = []
        for i in range(r.randint(1, 14)):
            f = r.choice([u'a', u'b', u'c', u'x-1'])
            tt = r.choice(qx.TYPES)
            bb = BT.decode[tt]
            o = r.choice(['set', 'set', 'set', 'none', 'null', 'del', 'get', 'all', 'bad'])
            hist.append((o, f, tt))
            if o == 'set':
                x = qx.atom(r, tt, False)
                v[f] = variables.SingleValue.NewValue(bb, qx.atext(tt, x))
                model[f] = (tt, x)
            elif o == 'none':
                v[f] = None
                model.pop(f, None)
            elif o == 'null':
                v[f] = variables.SingleValue.NewValue(bb)
                model.pop(f, None)
            elif o == 'del':
                if f in model:
                    del v[f]
                    del model[f]
                else:
                    m.raises((KeyError,), 'del missing', v.__delitem__, f)
            elif o == 'bad':
                m.raises((ValueError,), 'record of containers', v.__setitem__, f, r.choice([variables.OrderedContainer(bb), 3, u'x', variables.RecordContainer()]))
            elif o == 'all':
                new = {}
                arg = {}
                for ff in r.sample([u'a', u'b', u'c', u'x-1'], r.randint(0, 4)):
                    if r.random() < .2:
                        arg[ff] = r.choice([None, variables.SingleValue.NewValue(bb)])
                    else:
                        x = qx.atom(r, tt, False)
                        arg[ff] = variables.SingleValue.NewValue(bb, qx.atext(tt, x))
                        new[ff] = (tt, x)
                v.SetValue(arg)
                model = new
            want = ('r', None, model or None)
            m.check(agree(actual(v), want), 'record', actual(v), want, hist)
            m.check(len(v) == len(model) and sorted(v) == sorted(model) and (f in v) == (f in model) and v.IsNull() == (not model) and bool(v) == bool(model), 'record view', actual(v), want, hist)
            if f in model:
                m.check(atomic(model[f][0], v[f].value) == model[f][1], 'record item', hist)
            else:
                m.raises((KeyError,), 'get missing', v.__getitem__, f)
        m.key(tuple(hist))
        m.count('records')


def fam_random(m, r):
    """Random operators stay within, and reach, everything they may give"""
    decl, env = qx.declare(r, 4)
    k = r.choice(['int', 'int', 'float', 'choice', 'choice', 'bad'])
    tpl = u'<templateDeclaration identifier="I" cardinality="single" baseType="integer">%s</templateDeclaration><templateDeclaration identifier="F" cardinality="single" baseType="float">%s</templateDeclaration>'
    iv = r.choice([None, r.randint(-5, 9)])
    fv = r.choice([None, r.randint(-8, 8) / 2.0])
    dv = lambda v: u'' if v is None else u'<defaultValue><value>%s</value></defaultValue>' % v
    decl += tpl % (dv(iv), dv(fv))
    mode = None
    if k == 'int' or k == 'bad':
        lo = r.randint(-20, 20)
        step = r.choice([None, 1, 1, 2, 3, 5])
        hi = lo + r.randint(0, 9) * r.choice([1, step or 1])
        a = {'min': unicode(lo), 'max': unicode(hi)}
        if step:
            a['step'] = unicode(step)
        if k == 'int':
            if r.random() < .3:
                which = r.choice(['min', 'max'])
                a[which] = u'{I}'
                if iv is None:
                    mode = 'null'
                else:
                    lo, hi = (iv, hi) if which == 'min' else (lo, iv)
                    if hi < lo:
                        mode = 'refused'
            elif r.random() < .15 and lo <= 0 <= hi:
                del a['min']
                lo = 0
        else:
            mode = 'refused'
            c = r.randint(0, 4)
            if c == 0:
                a['max'] = unicode(lo - r.randint(1, 9))
            elif c == 1:
                a['step'] = r.choice([u'0', u'-1'])
            elif c == 2:
                a['max'] = u'{F}'
            elif c == 3:
                a['min'] = u'{nope}'
            else:
                del a['max']
        x = u'<randomInteger %s/>' % u' '.join(u'%s="%s"' % i for i in a.items())
        allowed = range(lo, hi + 1, step or 1)
    elif k == 'float':
        lo = r.randint(-20, 20) / 4.0
        hi = lo + r.choice([0.0, .25, 1.0, 7.5])
        a = {'min': qx.ftext(lo), 'max': qx.ftext(hi)}
        if r.random() < .3:
            which = r.choice(['min', 'max'])
            a[which] = u'{F}'
            if fv is None:
                mode = 'null'
            else:
                lo, hi = (fv, hi) if which == 'min' else (lo, fv)
                if hi < lo:
                    mode = 'refused'
        x = u'<randomFloat %s/>' % u' '.join(u'%s="%s"' % i for i in a.items())
    else:
        t = r.choice(qx.TYPES)
        card = r.choice('om')
        l = [qx.atom(r, t, False) for i in range(r.randint(0, 6))]
        e = ({'o': 'ordered', 'm': 'multiple'}[card], {}, [('baseValue', {'baseType': t, '_v': ('s', t, v)}, []) for v in l])
        x = u'<random>%s</random>' % qx.xml_of(e, r)
        allowed = l
        if not l:
            mode = 'null'
        if r.random() < .1:
            x = u'<random><baseValue baseType="integer">1</baseValue></random>'
            mode = 'refused'
    src = qx.HEAD % 'false' + decl + u'<responseProcessing><setOutcomeValue identifier="Z">%s</setOutcomeValue></responseProcessing></assessmentItem>' % x
    m.key(src)
    doc = load(src)
    state = variables.ItemSessionState(doc.root)
    state.BeginSession()
    ex = doc.root.ResponseProcessing.ResponseRule[0].Expression
    seen = []
    n = 60
    for i in range(n):
        try:
            v = ex.Evaluate(state)
        except core.ProcessingError:
            m.check(mode == 'refused', 'refused', x, iv, fv)
            m.count('random_refused')
            return
        if mode == 'refused':
            m.violate('not refused', '%s %s %s %s' % (x, iv, fv, actual(v)))
            return
        got = actual(v)
        if mode == 'null':
            m.check(got[0] == 's' and got[2] is None, 'null', x, got)
            m.count('random_null')
            return
        if k == 'float':
            m.check(got[:2] == ('s', 'float') and isinstance(got[2], float) and lo <= got[2] <= hi, 'range', x, got, lo, hi)
        elif k == 'int':
            m.check(got[:2] == ('s', 'integer') and got[2] in allowed, 'range', x, got, allowed)
        else:
            m.check(got[:2] == ('s', t) and got[2] in allowed, 'choice', x, got, allowed)
        seen.append(got[2])
        m.count('draws')
    if k == 'float':
        if hi > lo:
            m.check(len(set(seen)) > 40 and min(seen) < lo + (hi - lo) * .3 and max(seen) > lo + (hi - lo) * .7, 'spread', x, min(seen), max(seen), lo, hi)
    else:
        opts = qx.freq(allowed)
        # each of n draws misses an option of probability p with (1-p)^n
        for o in opts:
            if (1 - opts[o] / float(len(allowed))) ** n < 1e-9:
                m.check(o in seen, 'never chosen', x, o, qx.freq(seen))
    m.count('spreads')


def fam_lookup(m, r):
    """Lookup tables of outcome declarations"""
    t = r.choice(['identifier', 'float', 'integer', 'string', 'boolean', 'pair', 'point', 'uri'])
    kind = r.choice(['matchTable', 'interpolationTable'])
    n = r.randint(1, 6)
    ents = []
    for i in range(n):
        v = qx.atom(r, t, False)
        if kind == 'matchTable':
            ents.append((r.randint(-2, 5), None, v))
        else:
            ents.append((r.randint(-8, 20) / 4.0, r.choice([None, None, 'true', 'false', '1', '0']), v))
    d = r.choice([None, qx.atom(r, t, False)])
    s = u'<outcomeDeclaration identifier="O" cardinality="single" baseType="%s"><%s%s>' % (t, kind, u'' if d is None else u' defaultValue="%s"' % qx.esc(qx.atext(t, d, r)))
    for a, inc, v in ents:
        s += u'<%sEntry sourceValue="%s"%s targetValue="%s"/>' % (kind, a if kind == 'matchTable' else qx.ftext(a, r), u'' if inc is None else u' includeBoundary="%s"' % inc, qx.esc(qx.atext(t, v, r)))
    s += u'</%s></outcomeDeclaration>' % kind
    src = qx.HEAD % 'false' + s + u'</assessmentItem>'
    m.key(src)
    doc = load(src)
    tab = doc.root.GetDeclaration(u'O').LookupTable
    for i in range(10):
        st = 'integer' if kind == 'matchTable' else r.choice(['integer', 'float', 'duration'])
        x = r.randint(-3, 6) if st == 'integer' else abs(r.randint(-10, 24)) / 4.0 if st == 'duration' else r.randint(-10, 24) / 4.0
        if r.random() < .1:
            got = tab.Lookup(variables.SingleValue.NewValue(BT.decode[st]))
            m.check(agree(actual(got), ('s', t, None)), 'lookup null', s, actual(got))
            continue
        want = d
        for a, inc, v in ents:
            if (a == x) if kind == 'matchTable' else (a < x or a == x and inc in (None, 'true', '1')):
                want = v
                break
        got = tab.Lookup(variables.SingleValue.NewValue(BT.decode[st], x))
        m.check(agree(actual(got), ('s', t, want)), 'lookup:' + kind, s, x, actual(got), want)
        m.count('lookups')
    for bad in (variables.StringValue(u'1'), variables.OrderedContainer(BT.integer)):
        if isinstance(bad, variables.Container):
            bad.SetValue([1, 2])
        m.raises((ValueError, core.ProcessingError), 'lookup mismatch', tab.Lookup, bad)


FAMILIES = [
    Family('expr', fam_expr, 1500, 30000, need={}),
    Family('value', fam_value, 6000, 120000),
    Family('random', fam_random, 600, 8000),
    Family('lookup', fam_lookup, 500, 8000),
]
