"""O03 OData resource paths and query options round-trip"""

import decimal
import math
import re
from lib import Family
import odm
import o01
import o02
from o01 import T, plain, same, native, model, single, uridecode
import pyslet.odata2.csdl as edm
import pyslet.odata2.core as core
import pyslet.odata2.metadata as metadata
import StringIO

PROPERTY = 'O03'
SQ = core.SystemQueryOption
PO = core.PathOption
REFUSED = (core.ServerError, ValueError, core.uri.URIException)

KEYTYPES = ['Binary', 'Boolean', 'Byte', 'SByte', 'Int16', 'Int32', 'Int64', 'Single', 'Double', 'Decimal', 'DateTime',
            'DateTimeOffset', 'Time', 'Guid', 'String', 'String', 'String']
# composite keys: property names of every sort
COMPOSITE = [('Two', [('a', 'String'), ('b', 'Int32')]),
             ('Three', [('X', 'String'), ('time', 'DateTime'), (u'caf\xe9_1', 'Int64')]),
             ('Four', [('guid', 'Guid'), ('s1', 'String'), ('s2', 'String'), ('flag', 'Boolean')]),
             ('Five', [('datetime', 'Decimal'), ('o', 'DateTimeOffset'), ('t', 'Time'), ('bin', 'Binary'), ('d', 'Double')])]
SINGLE = [('S' + t, [(u'Key', t)]) for t in sorted(set(KEYTYPES))]
_state = {}


def world():
    if _state:
        return _state
    sets = [(n, True, k) for n, k in SINGLE] + [(n, True, k) for n, k in COMPOSITE] + [('Other', False, [('ID', 'String')]), ('Other2', False, COMPOSITE[0][1])]
    types = u''
    cont = {True: u'', False: u''}
    for n, default, ks in sets:
        types += u'<EntityType Name="%sType"><Key>%s</Key>%s</EntityType>' % (
            n, u''.join(u'<PropertyRef Name="%s"/>' % k for k, t in ks),
            u''.join(u'<Property Name="%s" Type="Edm.%s" Nullable="false"%s/>' % (
                k, t, ' Precision="7"' if t in ('DateTime', 'DateTimeOffset', 'Time') else '') for k, t in ks))
        cont[default] += u'<EntitySet Name="%s" EntityType="V.%sType"/>' % (n, n)
    body = (u'<EntityContainer Name="C" m:IsDefaultEntityContainer="true">%s</EntityContainer><EntityContainer Name="D">%s</EntityContainer>%s'
            % (cont[True], cont[False], types))
    doc = metadata.Document()
    doc.Read(StringIO.StringIO(odm.edmxdoc(body).encode('utf-8')))
    ds = doc.root.DataServices
    _state['doc'] = doc
    _state['sets'] = {}
    for n, default, ks in sets:
        _state['sets'][n] = (ds['V.%s.%s' % ('C' if default else 'D', n)], default, ks)
    return _state


def root(r):
    return r.choice(['http://h/', 'http://h/svc/', 'http://h:8080/a/b.svc/', 'https://x.y/o%20d/'])


def unescape(s):
    """Independent percent decoding of an ASCII URL part"""
    assert type(s) is str, type(s)
    out = re.sub(r'%([0-9A-Fa-f]{2})', lambda g: chr(int(g.group(1), 16)), s)
    return out.decode('utf-8')


URLSAFE = set("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_.!~*'();/?:@&=+$,%")


def escape(r, text, safe="-_.~"):
    """Any legal way of writing the text in one component"""
    out = []
    for c in text.encode('utf-8'):
        ok = c.isalnum() or c in safe
        if ok and r.random() > 0.03:
            out.append(c)
        else:
            h = '%%%02X' % ord(c)
            out.append(h.lower() if r.random() < 0.2 else h)
    return ''.join(out)


# characters that may stand unescaped inside a path segment
SEGSAFE = "-_.!~*'():@&=+$,"
VALSAFE = "-_.!~*'():@/?,"


def splitkeys(text):
    """Independent reading of a key predicate: {name: (type, value)}"""
    out, i = {}, 0
    while i < len(text):
        g = re.compile(u"([^=,'()]+)=").match(text, i)
        name = u''
        if g and not re.match(u"(datetimeoffset|datetime|time|guid|binary|X)\\Z", g.group(1)):
            name = g.group(1)
            i = g.end()
        elif g:
            name = g.group(1)
            i = g.end()
        g = re.compile(u"(?:datetimeoffset|datetime|time|guid|binary|X)?'(?:[^']|'')*'|[^,']+", re.S).match(text, i)
        out[name] = uridecode(g.group())
        i = g.end()
        if i < len(text):
            assert text[i] == ',', text
            i += 1
    return out


def rkey(r, t):
    while True:
        mv = o02.rval(r, t) if r.random() < 0.5 else model(r, t)
        if t in ('Double', 'Single') and (math.isnan(mv) or math.isinf(mv)):
            continue
        if t == 'String' and r.random() < 0.4:
            mv = u''.join(r.choice(u"/=,()'%?#&+ ;:@$[]{}|\\^`\"<>\u00e9\u4e00aZ9~") for i in range(r.randrange(8)))
        if t == 'String' and any(ord(c) > 0xFFFF or c == u'\x00' for c in mv):
            # (Jython cannot index strings of characters beyond the BMP)
            continue
        if t == 'Single' and abs(mv) > 3.4e38:
            continue
        return mv


def sameval(t, a, b):
    return same(t, plain(t, a), b)


WIDE = {'Byte': 'Int32', 'SByte': 'Int32', 'Int16': 'Int32'}


def checkpred(m, pred, names, ks, mvs, mech, ctx):
    """A parsed key predicate holds the values"""
    want = [u''] if names is None else names
    if not m.check(sorted(pred) == sorted(want), mech + '-names', sorted(pred), want, ctx):
        return False
    ok = True
    for n, (k, t), mv in zip(want, ks, mvs):
        v = pred[n]
        lt = WIDE.get(t, t)
        ok = m.check(v.typeCode == getattr(T, lt), mech + '-type', v.typeCode, t, ctx) and ok
        ok = m.check(v.value is not None and sameval(lt, v.value, mv), mech + '-value', repr(v.value), repr(mv), ctx) and ok
    return ok


def f_keys(m, r):
    """The location of an entity names it"""
    st = world()
    name = r.choice([n for n, k in SINGLE] * 2 + ['SString'] * 8 + [n for n, k in COMPOSITE] * 4 + ['Other', 'Other2'])
    es, default, ks = st['sets'][name]
    base = root(r)
    st['doc'].SetBase(base)
    es.SetLocation()
    e = core.Entity(es)
    mvs = [rkey(r, t) for k, t in ks]
    for (k, t), mv in zip(ks, mvs):
        e[k].SetFromValue(native(t, mv))
    ctx = (name, mvs)
    m.key(ctx)
    m.sample(ctx)
    loc = str(e.GetLocation())
    want = base + ('' if default else 'D.') + name
    if not m.check(loc.startswith(want) and loc.endswith(')') and all(c in URLSAFE for c in loc), 'location', loc, want, ctx):
        return
    rest = loc[len(want):]
    m.check('/' not in rest and '?' not in rest and '#' not in rest, 'location-delimiters', loc, ctx)
    raw = unescape(rest)
    try:
        ind = splitkeys(raw[1:-1])
    except Exception as x:
        m.violate('location-unreadable', '%r %s %s' % (raw, x, ctx))
        return
    m.check(raw[0] == '(' and sorted(ind) == ([u''] if len(ks) == 1 else sorted(k for k, t in ks)), 'location-key-names', raw, ctx)
    for (k, t), mv in zip(ks, mvs):
        it, iv = ind[u'' if len(ks) == 1 else k]
        m.check(it == WIDE.get(t, t) and same(it, iv, mv), 'location-key-value', raw, it, repr(iv), ctx)
    # read back by the library, absolute and relative
    prefix = re.match(r'https?://[^/]*(.*)/\Z', base).group(1)
    for src in (loc, core.uri.URIFactory.URI(loc), loc[len(base):], loc + '/$value'):
        try:
            u = core.ODataURI(src, prefix)
        except REFUSED as x:
            m.violate('location-refused', '%s %s %s' % (src, x, ctx))
            return
        if not m.check(len(u.navPath) == 1 and u.navPath[0][0] == ('' if default else 'D.') + name, 'location-path', src, u.navPath, ctx):
            return
        pred = u.navPath[0][1]
        if not checkpred(m, pred, None if len(ks) == 1 else [k for k, t in ks], ks, mvs, 'key', ctx + (loc,)):
            return
        key = es.GetKey(pred)
        if not any(t == 'Single' for k, t in ks):
            # (single precision values are only compared at that precision)
            m.check(key == e.Key() and hash(key) == hash(e.Key()), 'key-differs', repr(key), repr(e.Key()), ctx)
        d = es.GetKeyDict(key)
        m.check(core.ODataURI.FormatKeyDict(d) == rest or any(t in ('Single', 'Decimal', 'Double') for k, t in ks) or len(ks) > 1,
                'keydict', core.ODataURI.FormatKeyDict(d), rest, ctx)
        u2 = core.ODataURI('Z' + core.ODataURI.FormatKeyDict(d), prefix)
        checkpred(m, u2.navPath[0][1], None if len(ks) == 1 else [k for k, t in ks], ks, mvs, 'keydict', ctx)
        m.count('keys')
    m.count('key_' + ks[0][1])


IDENT = ['Products', 'Orders', u'Caf\xe9', 'A1', 'time', 'X', 'value', 'links', 'Name_2', u'\u4e00\u4e01', 'and', 'Customers', 'Supplier.Addr', 'guid', 'count']


def littext(r, t, mv):
    return '%d' % mv if t in WIDE else o02.littext(r, o02.mval(t, mv))


def keytext(r, mvs, names):
    parts = []
    for i, (t, mv) in enumerate(mvs):
        lit = littext(r, t, mv)
        parts.append(lit if names is None else u'%s=%s' % (names[i], lit))
    return u'(%s)' % u','.join(parts)


def segment(r):
    """(text, name, keyspec) keyspec None, [] or (names, ks, mvs)"""
    name = r.choice(IDENT)
    k = r.random()
    if k < 0.4:
        return name, name, None
    if k < 0.45:
        return name + '()', name, []
    if k < 0.8:
        ts, names = [r.choice(KEYTYPES)], None
        if r.random() < 0.2:
            names = [r.choice(IDENT)]
    else:
        ts = [r.choice(KEYTYPES) for i in range(r.randint(2, 4))]
        names = r.sample(['a', 'b', 'X', 'time', u'caf\xe9', 'ID', 'guid', 'k.l', 'datetime', 'and'], len(ts))
    mvs = [(t, rkey(r, t)) for t in ts]
    return name + keytext(r, mvs, names), name, (names, [(None, t) for t in ts], [v for t, v in mvs])


def tree(r, depth, star):
    out = {}
    for i in range(r.randint(1, 3)):
        n = r.choice(['A', 'B', 'Orders', u'Caf\xe9', 'Lines', 'x_1'])
        out[n] = tree(r, depth - 1, star) if depth and r.random() < 0.4 else None
    if star and r.random() < 0.2:
        out['*'] = None
    return out


def flatten(d):
    for k, v in d.items():
        if v:
            for x in flatten(v):
                yield [k] + x
            if v is None:
                yield [k]
        else:
            yield [k]


def listtext(r, d, star):
    """Any way of writing the list: order, redundancy, prefixes"""
    items = [u'/'.join(x) for x in flatten(d)]
    if r.random() < 0.3:
        items.append(r.choice(items))
    if r.random() < 0.3:
        x = r.choice(items)
        if '/' in x:
            items.append(x.rsplit('/', 1)[0])
    r.shuffle(items)
    w = lambda: r.choice(['', '', '', ' ']) if star else ''
    return u','.join(w() + x + w() for x in items)


def options(r):
    """[(raw text, check)]"""
    opts = []
    k = r.sample(['filter', 'orderby', 'top', 'skip', 'skiptoken', 'inlinecount', 'select', 'expand', 'format'], r.randint(0, 5))
    for n in k:
        if n == 'filter':
            text = o02.show(r, o02.gen(r, 'Boolean', 2))
            want = text
        elif n == 'orderby':
            text = u','.join(o02.show(r, o02.gen(r, 'num', 1)) + r.choice(['', ' asc', ' desc']) for i in range(r.randint(1, 3)))
            want = text
        elif n in ('top', 'skip'):
            want = r.choice([0, 1, 20, 10 ** 6, r.randrange(1000)])
            text = u'%d' % want
        elif n == 'skiptoken':
            want = text = r.choice([u"'a',1", u"5", o01.rtext(r)])
        elif n == 'inlinecount':
            text = r.choice([u'allpages', u'none'])
            want = text
        elif n in ('select', 'expand'):
            want = tree(r, 2, n == 'select')
            text = listtext(r, want, n == 'select')
        else:
            text = r.choice([u'json', u'atom', u'xml', u'application/json', u'application/atom+xml;type=feed', u'text/plain'])
            want = text
        opts.append((n, text, want))
    return opts


FORMATS = {'json': 'application/json', 'atom': 'application/atom+xml', 'xml': 'application/xml'}


def checkoption(m, n, got, text, want, ctx):
    if n == 'filter':
        m.check(isinstance(got, core.CommonExpression) and unicode(got) == unicode(core.CommonExpression.FromString(want)), 'filter', text, ctx)
    elif n == 'orderby':
        m.check([(unicode(e), d) for e, d in got] == [(unicode(e), d) for e, d in core.CommonExpression.OrderByFromString(want)], 'orderby', text, ctx)
    elif n == 'inlinecount':
        m.check(got == getattr(core.InlineCount, want), 'inlinecount', got, text, ctx)
    elif n in ('select', 'expand'):
        m.check(got == want, n, got, want, text, ctx)
    elif n == 'format':
        m.check(str(got) == FORMATS.get(text, text) or str(got).replace(' ', '') == FORMATS.get(text, text), 'format', str(got), text, ctx)
    else:
        m.check(got == want, n, repr(got), text, ctx)
    m.count('opt_' + n)


def f_paths(m, r):
    """Whole requests"""
    prefix = r.choice(['', '', '/svc', '/a/b.svc', '/o%20d'])
    segs = [segment(r) for i in range(r.randint(0, 4))]
    opt = None
    if segs and r.random() < 0.5:
        opt = r.choice(['value', 'count', 'links'])
    elif not segs and r.random() < 0.7:
        opt = r.choice(['metadata', 'batch'])
    texts = [escape(r, s[0], SEGSAFE) for s in segs]
    # a segment never starts with an unescaped $
    path = [t for t in texts]
    if opt == 'links':
        s = segment(r)
        segs.append(s)
        path += ['$links', escape(r, s[0], SEGSAFE)]
        if r.random() < 0.0:
            path.append('$count')
    elif opt:
        path.append('$' + opt)
    opts = options(r)
    if opt:
        rules = {'links': ['format', 'skip', 'top', 'skiptoken', 'inlinecount'], 'metadata': [], 'batch': [], 'value': None}.get(opt, 0)
        if opt == 'count':
            keyed = segs[-1][2] is not None and segs[-1][2] != []
            rules = ['expand', 'filter'] if keyed else ['expand', 'filter', 'orderby', 'skip', 'top']
        bad = rules is not None and [o for o in opts if o[0] not in rules]
    else:
        bad = []
    custom = []
    for i in range(r.choice([0, 0, 1, 2])):
        n = u'c%d%s' % (i, r.choice([u'', u'\xe9', u'x y', u'a.b', u'top']))
        t = r.choice(KEYTYPES)
        mv = rkey(r, t)
        custom.append((n, t, mv, littext(r, t, mv)))
    raw = ['$%s=%s' % (n, escape(r, text, VALSAFE)) for n, text, want in opts]
    rawc = ['%s=%s' % (escape(r, n), escape(r, lit, VALSAFE)) for n, t, mv, lit in custom]
    if r.random() < 0.1:
        rawc.append(r.choice(['flag', 'flag=', '=', 'a=b=c', 'x=%24top']))
    q = raw + rawc
    order = range(len(q))
    r.shuffle(order)
    src = prefix + '/' + '/'.join(path)
    if r.random() < 0.3 and path and not path[0].startswith('$'):
        src = src[len(prefix) + 1:]
        if ':' in src.split('/')[0]:
            src = './' + src
    elif r.random() < 0.3:
        src = 'http://host' + src
    if q:
        src += '?' + '&'.join(q[i] for i in order)
    m.key(src)
    m.sample(src)
    try:
        u = core.ODataURI(src, prefix)
    except REFUSED as x:
        if bad:
            m.check(isinstance(x, core.InvalidSystemQueryOption), 'misplaced-error', x, src)
            m.count('misplaced')
        else:
            m.violate('refused', '%s %s %s' % (src, type(x), x))
        return
    if bad:
        m.violate('misplaced-accepted', '%s %s' % (src, bad[0][0]))
        return
    m.count('paths')
    m.check(u.pathPrefix == prefix, 'prefix', u.pathPrefix, src)
    wantopt = getattr(PO, opt) if opt else None
    m.check(u.pathOption == wantopt, 'path-option', u.pathOption, wantopt, src)
    m.check(u.linksProperty == (segs[-1][1] if opt == 'links' else None), 'links-property', u.linksProperty, src)
    if not m.check(len(u.navPath) == len(segs), 'segments', u.navPath, src):
        return
    for (n, pred), (text, name, ks) in zip(u.navPath, segs):
        m.check(n == name and type(n) is unicode, 'segment-name', repr(n), repr(name), src)
        if ks is None or ks == []:
            m.check(pred == (None if ks is None else {}), 'segment-key', pred, src)
        elif m.check(pred is not None, 'segment-key-lost', src):
            checkpred(m, pred, ks[0], ks[1], ks[2], 'segment', src)
            m.count('predicates')
            if ks[0] is None or len(ks[0]) > 1:
                again = core.ODataURI('Z' + core.ODataURI.FormatKeyDict(pred)).navPath[0][1]
                checkpred(m, again, ks[0], ks[1], ks[2], 'reformatted', src)
    m.check(sorted(u.sysQueryOptions) == sorted(getattr(SQ, n) for n, text, want in opts), 'options', u.sysQueryOptions, src)
    for n, text, want in opts:
        if getattr(SQ, n) in u.sysQueryOptions:
            checkoption(m, n, u.sysQueryOptions[getattr(SQ, n)], text, want, src)
    m.check(u.queryOptions == [q[i] for i in order if i >= len(raw)], 'custom', u.queryOptions, src)
    for n, t, mv, lit in custom:
        try:
            v = u.GetParamValue(n)
        except KeyError:
            m.violate('param-missing', '%r %s' % (n, src))
            continue
        lt = WIDE.get(t, t)
        m.check(v.typeCode == getattr(T, lt) and sameval(lt, v.value, mv), 'param-value', repr(v.value), repr(mv), src)
        m.count('params')
    m.raises(KeyError, 'param-unknown', u.GetParamValue, 'nosuchparam', ctx=src)
    # the options written out by the library
    if opts:
        d = {}
        for n, text, want in opts:
            v = u.sysQueryOptions[getattr(SQ, n)]
            if n == 'filter':
                s = unicode(v)
            elif n == 'orderby':
                s = core.CommonExpression.OrderByToString(v)
            elif n in ('select', 'expand'):
                s = (core.FormatSelect if n == 'select' else core.FormatExpand)(v)
            else:
                s = text
            d[getattr(SQ, n)] = unicode(s)
        qs = core.ODataURI.FormatSysQueryOptions(d)
        m.check(all(c in URLSAFE for c in qs), 'format-chars', qs, src)
        try:
            u2 = core.ODataURI(prefix + '/P?' + qs, prefix)
        except REFUSED as x:
            m.violate('rewritten-refused', '%s from %s: %s' % (qs, src, x))
            return
        for n, text, want in opts:
            checkoption(m, n, u2.sysQueryOptions.get(getattr(SQ, n)), text, want, (qs, src))
        m.count('rewritten')


def f_prefix(m, r):
    """Only paths below the prefix belong to the service"""
    prefix = r.choice(['/x', '/x.svc', '/a/b', '/a/b.svc'])
    tail = r.choice(['', '/', '/P', '/P/Q', '/P(1)', 'P', '.other', 'x/P', '2/$metadata', '(1)', '%20/P', '-/P', '/$metadata'])
    other = r.choice(['', '', '', '/y', '/', 'z'])
    path = prefix + tail if not other else (other + prefix + tail if other[0] == '/' and len(other) > 1 else '/' + tail.lstrip('/'))
    src = r.choice(['', 'http://h']) + path
    m.key((src, prefix))
    m.sample((src, prefix))
    u = core.ODataURI(src, prefix)
    mine = path == prefix or path.startswith(prefix + '/')
    m.check((u.resourcePath is not None) == mine, 'ownership', src, prefix, u.resourcePath)
    if mine:
        m.count('own')
        m.check(u.resourcePath == path[len(prefix):], 'resource-path', u.resourcePath, src, prefix)
    else:
        m.count('foreign')
        m.check(u.navPath == [] and u.pathOption is None, 'foreign-parsed', u.navPath, src, prefix)


def f_malformed(m, r):
    a = r.choice(['Products', 'Orders(1)', "Customers('x')"])
    lit = r.choice(['1', "'a'", 'true', '5L', "datetime'2000-01-01T00:00:00'"])
    bad = r.choice([
        lambda: a + '?$' + r.choice(['top', 'skip']) + '=' + r.choice(['-1', '', 'x', '1.5', '1L', "'1'", '%201', '1%20', 'null', '1,2', '+1']),
        lambda: a + '?$' + r.choice(['Top', 'TOP', 'nosuch', 'counts', 'tops', '', 'inlineCount', 'Filter']) + '=1',
        lambda: a + '?$' + r.choice(['top', 'filter', 'expand']),
        lambda: a + '?$inlinecount=' + r.choice(['', 'all', '1', 'yes', 'nones']),
        lambda: a + '?$filter=' + r.choice(['', '%20', '1%20eq', '(1', 'nosuch(1)', "'a", 'a%20eq%20eq%20b', '%FF']),
        lambda: a + '?$orderby=' + r.choice(['', ',', 'a,', 'a%20up', ',a', 'a%20asc%20asc']),
        lambda: a + '?$expand=' + r.choice(['', ',', 'A,', 'A/', '/A', 'A//B', '*', 'A%20B', 'A/*', '1A', 'A;B']),
        lambda: a + '?$select=' + r.choice(['', ',', 'A,', 'A/', '/A', 'A//B', '*/A', 'A%20B', '1A', '**', 'A;B']),
        lambda: a + '?$format=' + r.choice(['', 'nosuch', 'html5', '/', 'a/', 'application']),
        lambda: '%s(%s' % ('Products', lit) + r.choice([',)', '%201)', '=1)', "'')x')", ',%s)' % lit, ')(1)', ',a=1)']) ,
        lambda: 'Products(' + r.choice(['a=', 'a', '=1', 'a=1,', 'a=1,b', 'a=1,a=2', 'a=1%20b=2', 'a==1', ',', 'a=b', '1=1', "'a'='b'",
                                        "'", "'''", 'a=1;b=2', '1.2.3', '0x1', 'tru', "X'1'", "guid'1'", '999999999999', '1e', 'a=1,2']) + ')',
        lambda: a + '/$' + r.choice(['nosuch', 'counts', '', 'link', 'metadatas', 'values']),
        lambda: a + '/$' + r.choice(['count', 'value', 'links']) + '/$' + r.choice(['count', 'value', 'links']),
        lambda: a + '/$' + r.choice(['count', 'value']) + '/' + r.choice(['Orders', 'P(1)']),
        lambda: a + '/$' + r.choice(['metadata', 'batch']),
        lambda: '$' + r.choice(['metadata', 'batch']) + '/' + r.choice(['Orders', '$count', '$value', 'P(1)']),
        lambda: a + '/$links',
        lambda: a + '/$links/Orders/' + r.choice(['Lines', '$count', 'P(1)', 'a/b']),
        lambda: '$links/' + r.choice(['Orders', 'P(1)']),
        lambda: a + '/$links/$' + r.choice(['count', 'value', 'links']),
        lambda: '%FF' + r.choice(['', '/P', '(1)']),
        lambda: "Products('%FF')",
        lambda: '$metadata?$' + r.choice(['top=1', 'format=xml', 'filter=true']),
        lambda: 'P/$count?$' + r.choice(['select=a', 'inlinecount=none', 'format=json', 'skiptoken=1']),
        lambda: 'P(1)/$count?$' + r.choice(['top=1', 'orderby=a', 'skip=0']),
        lambda: 'P(1)/$links/Q?$' + r.choice(['filter=true', 'expand=A', 'select=a', 'orderby=a']),
    ])()
    m.key(bad)
    m.sample(bad)
    try:
        u = core.ODataURI('/svc/' + bad, '/svc')
    except REFUSED:
        m.count('refused')
        return
    m.violate('accepted', '%s as %r %r %r' % (bad, u.navPath, u.pathOption, u.sysQueryOptions))


def f_versions(m, r):
    major, minor = r.randrange(4), r.randrange(10)
    agent = r.choice(['', 'Pyslet', 'My.Agent', 'NetFx'])
    s = r.choice(['', ' ']) + '%d.%d' % (major, minor)
    if agent:
        s += r.choice([';', '; ', ' ; ', ';  ']) + agent + r.choice(['', ' '])
    m.key(s)
    m.sample(s)
    a = core.ParseDataServiceVersion(s)
    m.check(a == (major, minor, agent), 'version', s, a)
    b = core.ParseMaxDataServiceVersion(s)
    m.check(b[:2] == (major, minor) and b[2].strip() == agent, 'max-version', s, b)
    bad = r.choice(['', ';', 'x', '1', '1.', '.1', '1.x', '1.0.0', '-1.0', 'a.b', '1;0', '%d;%s' % (major, agent), ';%d.%d' % (major, minor), '1. 0'])
    for f in (core.ParseDataServiceVersion, core.ParseMaxDataServiceVersion):
        try:
            got = f(bad)
        except (SyntaxError, ValueError, core.http.HTTPParameterError):
            m.count('bad_versions')
        else:
            m.violate('bad-version', '%r as %s' % (bad, got))


FAMILIES = [
    Family('keys', f_keys, 3000, 50000, {'keys': 9000, 'key_String': 700, 'key_Guid': 100}),
    Family('paths', f_paths, 4000, 70000, {'paths': 2000, 'predicates': 1500, 'misplaced': 250, 'params': 800, 'rewritten': 1200, 'opt_filter': 500,
                                           'opt_orderby': 400, 'opt_select': 400, 'opt_expand': 400, 'opt_skiptoken': 300}),
    Family('prefix', f_prefix, 1500, 10000, {'own': 200, 'foreign': 300}),
    Family('malformed', f_malformed, 2500, 30000, {'refused': 2400}),
    Family('versions', f_versions, 800, 5000, {'bad_versions': 1000}),
]
