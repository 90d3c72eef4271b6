"""X03 namespace processing keeps every name in its namespace"""

from StringIO import StringIO
from lib import Family, text
import xg
from x01 import loose, same
import java.lang
import pyslet.xml20081126.structures as xml
import pyslet.xmlnames20091208 as ns

PROPERTY = 'X03'
XML = u'http://www.w3.org/XML/1998/namespace'
XMLNS = u'http://www.w3.org/2000/xmlns/'
URIS = [u'http://a.example/', u'http://b.example/ns', u'urn:x', u'http://a.example', u'u&"<>\'v', u'http://\xe9.example/', u'HTTP://A.example/', u' spaced ']
PREFIXES = [u'', u'p', u'q', u'p1', u'ns1', u'ns2', u'_', u'xmlnsx', u'\xe9', u'default']
LOCALS = [u'a', u'b', u'c', u'x-y', u'n.1', u'\xe9l', u'xmlnsy', u'lang', u'ns1']
ATTRS = [u'a', u'k', u'x', u'xmlnsz', u'id', u'\xe9', u'name', u'lang', u'base', u'space']
TXT = [u'x', u' ', u'word', u'\n', u'<', u'&', u'>', u'"', u']]>', u'\r', u'\t', u'\xe9', u'\u4e2d']


def ptree(e):
    """pyslet element -> tree of expanded names"""
    attrs = {}
    for k, v in e.GetAttributes().items():
        if not isinstance(k, tuple):
            k = (u'?', k)
        attrs[(None if k[0] == ns.NO_NAMESPACE else k[0], k[1])] = v
    n = e.GetXMLName()
    if n[0] == ns.NO_NAMESPACE:
        n = (None, n[1])
    return (n, attrs, xg.norm([ptree(c) if isinstance(c, xml.Element) else c for c in e.GetChildren()]))


def flat(t):
    """expanded names as strings"""
    f = lambda n: n[1] if n[0] is None else (u'xml:' + n[1] if n[0] == XML else u'{%s}%s' % n)
    return (f(t[0]), dict((f(k), v) for k, v in t[1].items()), [flat(c) if isinstance(c, tuple) else c for c in t[2]])


def jns(src):
    dom, errs = xg.jparse(src, True)
    return xg.jtree(dom.getDocumentElement(), True)


def pns(src, cls=None):
    d = (cls or ns.XMLNSDocument)()
    d.Read(src=src)
    return d


def esc(s):
    for a, b in ((u'&', u'&amp;'), (u'<', u'&lt;'), (u'>', u'&gt;'), (u'"', u'&quot;'), (u'\r', u'&#13;'), (u'\n', u'&#10;'), (u'\t', u'&#9;')):
        s = s.replace(a, b)
    return s


# ------------------------------------------------ reading

class Src(object):
    """a namespaced document with the scope of every element, in document order"""

    def __init__(self, r, ascii=False):
        self.r = r
        self.ascii = ascii
        self.scopes = []
        self.pool = r.sample(URIS, r.choice([1, 2, 3])) if not ascii else r.sample(URIS[:5], 2)
        self.prefixes = r.sample([p for p in PREFIXES if not ascii or p != u'\xe9'], r.choice([2, 3, 4]))
        self.text = self.element(r.choice([1, 2, 3, 4]), {u'': None}, True)

    def pick(self, l):
        while True:
            x = self.r.choice(l)
            if not self.ascii or max(x) < u'\x80':
                return x

    def element(self, depth, scope, top=False):
        r = self.r
        scope = dict(scope)
        decls = []
        for p in r.sample(self.prefixes, min(len(self.prefixes), r.choice([0, 0, 1, 1, 2] if not top else [0, 1, 2, 3]))):
            if p == u'' and r.random() < 0.3:
                u = None
            else:
                u = r.choice(self.pool)
            scope[p] = u
            decls.append(u'xmlns%s="%s"' % (u':' + p if p else u'', esc(u or u'')))
        if r.random() < 0.05:
            decls.append(u'xmlns:xml="%s"' % XML)
        self.scopes.append(scope)
        p = r.choice(sorted(scope))
        name = (p + u':' if p else u'') + self.pick(LOCALS)
        attrs = {}
        used = set()
        for i in range(r.choice([0, 0, 1, 2, 3])):
            p = r.choice(sorted(scope) + [u'xml'])
            a = self.pick(ATTRS)
            v = r.choice([u'', u'v', u'x y', u'a"b', u'<', u'\xe9' if not self.ascii else u'e'])
            if p == u'xml':
                a = r.choice([u'lang', u'base', u'space', u'id'])
                v = {u'lang': u'en', u'base': u'http://c/', u'space': r.choice([u'preserve', u'default']), u'id': u'i%i' % len(self.scopes)}[a]
                e = (XML, a)
            elif p == u'':
                e = (None, a)
            else:
                e = (scope[p], a)
            if e in used:
                continue
            used.add(e)
            attrs[(p + u':' if p else u'') + a] = v
        parts = decls + [u'%s="%s"' % (k, esc(v)) for k, v in attrs.items()]
        r.shuffle(parts)
        o = u'<' + u' '.join([name] + parts)
        kids = u''
        for i in range(r.choice([0, 1, 2, 3]) if depth else 0):
            if r.random() < 0.3:
                kids += esc(r.choice([u'text', u' ', u'\n', u'a b']))
            kids += self.element(depth - 1, scope)
        if not kids and r.random() < 0.5:
            return o + u'/>'
        return o + u'>' + kids + u'</%s>' % name


def elements(e):
    yield e
    for c in e.GetChildren():
        if isinstance(c, xml.Element):
            for x in elements(c):
                yield x


def fam_read(m, r):
    s = Src(r)
    src = s.text
    if r.random() < 0.2:
        # declarations by default attributes
        src = u'<!DOCTYPE a [<!ATTLIST %s xmlns CDATA "urn:d" xmlns:dd CDATA #FIXED "urn:dd" zz CDATA "1">]>' % r.choice(LOCALS) + src
        m.count('default_attributes')
        dtd = True
    else:
        dtd = False
    m.key(src)
    want = jns(src)
    d = pns(src)
    if not same(m, ptree(d.root), want, 'read', src):
        return
    m.count('read')
    els = list(elements(d.root))
    if not dtd:
        m.eq(len(els), len(s.scopes), 'elements')
        for e, scope in zip(els, s.scopes):
            for p in PREFIXES + [u'xml', u'none']:
                w = XML if p == u'xml' else scope.get(p)
                m.eq(e.GetNS(p), w, 'scope:prefix', p, src)
            for u in URIS:
                p = e.GetPrefix(u)
                if p is None:
                    # a prefix that hides nothing is always found
                    mine = [k for k in scope if scope[k] == u]
                    ever = set(k for x in s.scopes for k in x if x[k] == u)
                    for k in mine:
                        m.check(len(set(x.get(k, u) for x in s.scopes)) > 1 or len(ever) > 1, 'scope:prefix-missed', u, mine, src)
                else:
                    m.eq(scope.get(p), u, 'scope:namespace', p, u, src)
                    m.count('prefixes_found')
            pm = e.GetPrefixMap()
            m.eq(dict((k, v) for k, v in pm.items() if v and k != u'xml'), dict((k, v) for k, v in scope.items() if v), 'scope:map', src)
            np = e.NewPrefix()
            m.check(scope.get(np) is None, 'new-prefix', np)
    # written again
    written(m, d, want, 'rewrite', src)
    # any element on its own
    e = r.choice(els)
    w = ptree(e)
    x = unicode(e)
    try:
        same(m, loose(flat(jns(x))), loose(flat(w)), 'subtree', x, src)
    except java.lang.Exception as ex:
        m.violate('subtree:not-well-formed', '%s %r of %r' % (ex.getMessage(), x, src))
    same(m, ptree(d.root), want, 'writing-changes-tree')
    if r.random() < 0.5:
        d.ResetPrefixMap(True)
        if r.random() < 0.5:
            pool = list(URIS)
            for p in r.sample(PREFIXES, 2):
                d.MakePrefix(pool.pop(r.randrange(len(pool))), p)
        written(m, d, want, 'reset', src)


def written(m, d, want, mech, src, ascii=False, stable=True):
    outs = []
    for tab in (u'', u'\t'):
        s = StringIO()
        d.WriteXML(s, tab=tab)
        outs.append((s.getvalue(), tab))
    if ascii:
        outs.append((str(d), u'\t'))
    for o, tab in outs:
        try:
            got = jns(o)
        except java.lang.Exception as e:
            m.violate(mech + ':not-well-formed', '%s: %r from %r' % (e.getMessage(), o, src))
            continue
        c = lambda t: loose(flat(t))
        same(m, c(got), c(want), mech + ':independent' + ('' if tab == u'' else ':indented'), o, src)
        if same(m, c(ptree(pns(o).root)), c(want), mech + ':reparsed' + ('' if tab == u'' else ':indented'), o, src):
            m.count('written')
    if stable:
        e = pns(outs[0][0])
        s = StringIO()
        e.WriteXML(s, tab=u'')
        c = StringIO()
        d.WriteXML(c, tab=u'')
        m.eq(c.getvalue(), outs[0][0], mech + ':second-write', src)
        same(m, loose(flat(ptree(pns(s.getvalue()).root))), loose(flat(want)), mech + ':third-write', s.getvalue(), src)


# ------------------------------------------------ building and editing

def rname(r, pool, attr=False):
    n = r.choice(ATTRS if attr else LOCALS)
    if attr and r.random() < 0.12:
        return (XML, r.choice([u'lang', u'base']))
    return (r.choice(pool + [None]), n)


def grow(r, parent, pool, depth):
    n = rname(r, pool)
    e = parent.ChildElement(ns.XMLNSElement, n)
    for i in range(r.choice([0, 0, 1, 2, 3])):
        a = rname(r, pool, True)
        v = r.choice([u'', u'v', u'x"y', u'<&>', u'\n', u'\xe9'])
        if a[0] is None:
            e.SetAttribute(r.choice([a[1], (ns.NO_NAMESPACE, a[1])]), v)
        else:
            e.SetAttribute(a, v)
    prefixes(r, e, pool)
    for i in range(r.choice([0, 1, 2, 3]) if depth else 0):
        if r.random() < 0.3:
            e.AddData(u''.join(r.choice(TXT) for i in range(r.randint(1, 4))))
        grow(r, e, pool, depth - 1)
    return e


def prefixes(r, e, pool):
    for i in range(r.choice([0, 0, 0, 1, 2])):
        u = r.choice(pool)
        p = r.choice(PREFIXES + [None])
        try:
            e.MakePrefix(u, p)
        except ValueError:
            if p not in e.prefixToNS:
                raise


def fam_build(m, r):
    pool = r.sample(URIS, r.choice([1, 2, 3, 4]))
    d = ns.XMLNSDocument()
    if r.random() < 0.4:
        prefixes(r, d, pool)
    grow(r, d, pool, r.choice([1, 2, 3]))
    if r.random() < 0.5:
        d.root.SetSpace(u'preserve')
    want = ptree(d.root)
    m.key(text(want, 100000))
    written(m, d, want, 'built', want)
    m.count('built')
    for k in range(r.choice([0, 1, 2, 3])):
        els = list(elements(d.root))
        e = r.choice(els)
        op = r.randrange(6)
        if op == 0:
            e.SetXMLName(rname(r, pool))
        elif op == 1:
            a = rname(r, pool, True)
            e.SetAttribute((ns.NO_NAMESPACE, a[1]) if a[0] is None else a, u'new')
        elif op == 2:
            grow(r, e, pool, 1)
        elif op == 3 and e is not d.root:
            e.parent.DeleteChild(e)
        elif op == 4:
            # a deep copy under another element
            f = r.choice(els)
            under = f
            while under is not None and under is not e:
                under = getattr(under, 'parent', None)
            if under is None:
                t = ptree(e)
                c = e.Copy(f)
                same(m, ptree(c), t, 'copy')
                m.count('copies')
        elif op == 5:
            prefixes(r, e, pool)
            # which may change what a namespace is called, not what it is
        if r.random() < 0.6:
            want = ptree(d.root)
            written(m, d, want, 'edited', want)
            m.count('edits')
    want = ptree(d.root)
    c = d.root.Copy()
    same(m, ptree(c), want, 'orphan-copy')
    e2 = ns.XMLNSDocument()
    c = d.root.Copy(e2)
    same(m, ptree(c), want, 'document-copy')
    written(m, e2, want, 'copied', want)
    written(m, d, want, 'final', want)


def fam_ascii(m, r):
    """ASCII output with non-ASCII namespaces"""
    s = Src(r, True)
    src = s.text
    u = r.choice([u'http://\xe9/', u'urn:\u4e2d', u'urn:\U0001f600x'])
    src = src.replace(r.choice(s.pool), u) if u'xmlns' in src else src
    m.key(src)
    want = jns(src)
    d = pns(src)
    if not same(m, ptree(d.root), want, 'ascii:read', src):
        return
    written(m, d, want, 'ascii', src, True)
    out = str(d.root)
    m.check(max([ord(c) for c in out]) < 128, 'ascii:not-ascii', out)
    same(m, loose(flat(jns(out))), loose(flat(want)), 'ascii:root', out, src)
    m.count('ascii')


# ------------------------------------------------ refusals

def fam_refused(m, r):
    n = r.choice([u'a', u'p:a', u'b'])
    dec = u'xmlns:p="urn:p" xmlns:q="urn:p" xmlns:o="urn:o"'
    label, doc = r.choice([
        ('duplicate', u'<%s %s p:x="1" q:x="2"/>' % (n, dec)),
        ('duplicate deep', u'<%s %s><b p:x="1" y="" q:x="1"/></%s>' % (n, dec, n)),
        ('duplicate rebound', u'<%s %s><b xmlns:o="urn:p" o:x="1" p:x="1"/></%s>' % (n, dec, n)),
        ('not duplicate', u'<%s %s x="1" p:x="1" o:x="2" xmlns="urn:p"/>' % (n, dec)),
        ('not duplicate rebound', u'<%s %s><b xmlns:q="urn:z" q:x="1" p:x="1"/></%s>' % (n, dec, n)),
        ('xml rebound', u'<%s %s xmlns:xml="urn:p"/>' % (n, dec)),
        ('xml redeclared', u'<%s %s xmlns:xml="%s"/>' % (n, dec, XML)),
        ('xml name', u'<%s %s xmlns:z="%s"/>' % (n, dec, XML)),
        ('xml default', u'<%s %s xmlns="%s"/>' % (u'p:a', dec, XML)),
        ('xmlns declared', u'<%s %s xmlns:xmlns="urn:p"/>' % (n, dec)),
        ('xmlns declared itself', u'<%s %s xmlns:xmlns="%s"/>' % (n, dec, XMLNS)),
        ('xmlns name', u'<%s %s xmlns:z="%s"/>' % (n, dec, XMLNS)),
        ('xmlns default', u'<%s %s xmlns="%s"/>' % (u'p:a', dec, XMLNS)),
        ('prefix undeclared', u'<%s %s xmlns:z=""/>' % (n, dec)),
        ('prefix undeclared deep', u'<%s %s><b xmlns:p=""/></%s>' % (n, dec, n)),
        ('default undeclared', u'<%s %s xmlns="urn:z"><b xmlns=""/></%s>' % (n, dec, n)),
        ('two colons', u'<%s %s><p:b:c/></%s>' % (n, dec, n)),
        ('two colons attribute', u'<%s %s p:b:c="1"/>' % (n, dec)),
        ('no prefix', u'<%s %s><:b/></%s>' % (n, dec, n)),
        ('no local', u'<%s %s><p:/></%s>' % (n, dec, n)),
        ('no local attribute', u'<%s %s p:="1"/>' % (n, dec)),
        ('no prefix attribute', u'<%s %s :p="1"/>' % (n, dec)),
        ('digit', u'<%s %s><p:1/></%s>' % (n, dec, n)),
        ('dash', u'<%s %s p:-x="1"/>' % (n, dec)),
        ('end tag', u'<%s %s><p:b></q:b></%s>' % (n, dec, n)),
        ('end tag default', u'<%s %s xmlns="urn:p"><b></p:b></%s>' % (n, dec, n)),
    ])
    if r.random() < 0.4:
        doc = u'<w:w xmlns:w="%s">%s%s</w:w>' % (r.choice(URIS[:3]), r.choice([u'', u'text', u'<x/>']), doc)
    m.key((label, doc))
    try:
        want = jns(doc)
    except java.lang.Exception as e:
        want = None
        msg = e.getMessage()
    try:
        got = ptree(pns(doc).root)
    except xml.XMLFatalError as e:
        got = None
        err = e
    if label[:9] == 'no prefix':
        want = None     # tolerated by the independent parser
        msg = 'no prefix before the colon'
    if want is None:
        m.check(got is None, 'accepted:' + label, doc, msg)
        m.count('refused')
    elif got is None:
        m.violate('refused:' + label, '%r: %s' % (doc, text(err)))
    else:
        same(m, got, want, 'content:' + label, doc)
        m.count('accepted')


# ------------------------------------------------ class selection

class Red(ns.XMLNSElement):
    XMLNAME = (URIS[0], u'red')
    XMLATTR_size = u'size'
    ID = (ns.NO_NAMESPACE, u'id')


class Blue(ns.XMLNSElement):
    XMLNAME = (URIS[0], u'blue')
    XMLATTR_n = (u'n', int, str)


class Red2(ns.XMLNSElement):
    XMLNAME = (URIS[1], u'red')


class NoNS(ns.XMLNSElement):
    XMLNAME = (None, u'red')


class Doc(ns.XMLNSDocument):
    classMap = {}

    @classmethod
    def GetElementClass(cls, name):
        return cls.classMap.get(name, ns.XMLNSElement)


ns.MapClassElements(Doc.classMap, {'a': Red, 'b': Blue, 'c': Red2, 'd': NoNS, 'e': 1, 'f': ns.XMLNSElement}, {URIS[0]: [u'urn:alias1', u'urn:alias2']})


class DefDoc(Doc):
    DefaultNS = URIS[0]


class D1(ns.XMLNSDocument):
    pass


class D2(ns.XMLNSDocument):
    pass


class D3(ns.XMLNSDocument):
    pass


class D4(ns.XMLNSDocument):
    pass


ns.RegisterNSDocumentClass(D1, (u'urn:k1', u'root'))
ns.RegisterNSDocumentClass(D2, (u'urn:k1', None))
ns.RegisterNSDocumentClass(D3, (None, u'known'))
ns.RegisterNSDocumentClass(D4, (u'urn:k2', u'known'))


def fam_classes(m, r):
    p = r.choice([u'', u'p', u'zz'])
    u = r.choice([URIS[0], URIS[1], u'urn:alias1', u'urn:alias2', u'urn:none', None])
    l = r.choice([u'red', u'blue', u'green'])
    n = r.randint(-9, 99)
    if u is None:
        src = u'<%s n="%i" size="s" id="i1"><red id="i2"/></%s>' % (l, n, l)
        w = None
    else:
        q = p + u':' if p else u''
        src = u'<%s%s xmlns%s="%s" n="%i" size="s" id="i1"><red xmlns="%s" id="i2"/></%s%s>' % (q, l, u':' + p if p else u'', esc(u), n, URIS[1], q, l)
    cls = r.choice([Doc, DefDoc])
    eu = URIS[0] if u is None and cls is DefDoc else u
    m.key((src, cls.__name__))
    want = {(URIS[0], u'red'): Red, (u'urn:alias1', u'red'): Red, (u'urn:alias2', u'red'): Red, (URIS[0], u'blue'): Blue, (u'urn:alias1', u'blue'): Blue, (u'urn:alias2', u'blue'): Blue, (URIS[1], u'red'): Red2, (None, u'red'): NoNS}
    d = pns(src, cls)
    e = d.root
    m.eq(e.GetXMLName(), (eu, l), 'class:name', src)
    m.check(e.__class__ is want.get((eu, l), ns.XMLNSElement), 'class', src, e.__class__.__name__)
    if e.__class__ is Red:
        m.eq(e.size, u's', 'class:attribute')
        m.eq(e.id, u'i1', 'class:id')
        m.check(d.GetElementByID(u'i1') is e, 'class:by-id')
    if e.__class__ is Blue:
        m.eq(e.n, n, 'class:attribute')
        m.eq(e.GetAttribute((ns.NO_NAMESPACE, u'n')), str(n), 'class:attribute')
    kid = [c for c in e.GetChildren()][0]
    m.check(kid.__class__ is (Red2 if u else want[(eu, u'red')]), 'class:child', src)
    m.eq(e.CheckOther(kid, eu), kid.ns != eu, 'class:other')
    t = ptree(e)
    s = StringIO()
    d.WriteXML(s, tab=u'')
    same(m, jns(s.getvalue()), t, 'class:written', s.getvalue())
    m.count('classes')
    # names
    a = (r.choice(URIS[:2] + [None]), r.choice(LOCALS[:2]))
    b = (r.choice(URIS[:2] + [None]), r.choice(LOCALS[:2]))
    al = r.choice([None, [], [URIS[1]], [URIS[0], URIS[1]]])
    m.eq(bool(ns.NSEqualNames(a, b, al)), a == b or (a[1] == b[1] and b[0] in (al or [])), 'equal-names', a, b, al)
    # documents
    u, l, w = r.choice([(u'urn:k1', u'root', D1), (u'urn:k1', u'other', D2), (u'urn:k1', u'known', D2), (u'urn:k2', u'known', D4), (u'urn:k3', u'known', D3), (None, u'known', D3), (None, u'root', ns.XMLNSDocument), (u'urn:k2', u'root', ns.XMLNSDocument)])
    src = u'<%s/>' % l if u is None else r.choice([u'<%s xmlns="%s"/>' % (l, u), u'<p:%s xmlns:p="%s"></p:%s>' % (l, u, l)])
    ps = ns.XMLNSParser(xml.XMLEntity(src))
    ps.ParseDocument()
    m.check(ps.doc.__class__ is w, 'class:document', src, ps.doc.__class__.__name__, w.__name__)
    m.eq(ps.doc.root.GetXMLName(), (u, l), 'class:document-root')
    # duplicates
    m.raises(ns.DuplicateXMLNAME, 'class:duplicate', ns.MapClassElements, dict(Doc.classMap), {'x': r.choice([Red, Blue, Red2, NoNS])})
    # NCNames
    c = unichr(r.choice([r.randrange(0x20, 0x80), r.randrange(0x80, 0xd800), ord(u':')]))
    for s in (c, u'a' + c, c + u'a', u'a' + c + u'b', u''):
        m.eq(bool(ns.IsValidNCName(s)), u':' not in s and bool(xml.IsValidName(s)), 'ncname', s)


FAMILIES = [
    Family('read', fam_read, 2500, 40000, need=dict(read=1500)),
    Family('build', fam_build, 1500, 20000),
    Family('ascii', fam_ascii, 800, 8000),
    Family('refused', fam_refused, 1500, 8000),
    Family('classes', fam_classes, 1200, 8000),
]
