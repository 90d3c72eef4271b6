"""X01 XML documents survive serialising and parsing"""

import os
import shutil
import tempfile
import codecs
from StringIO import StringIO
from lib import Family
import xg
import java.lang
import pyslet.xml20081126.structures as xml
from pyslet.xml20081126.parser import XMLParser
from pyslet.rfc2396 import URIFactory

PROPERTY = 'X01'
SCRATCH = []


def setup(m):
    SCRATCH.append(tempfile.mkdtemp('x01'))


def finish(m):
    shutil.rmtree(SCRATCH[0], True)


def pparse(src, **args):
    d = xml.Document()
    if isinstance(src, xml.XMLEntity):
        d.Read(src)
    else:
        d.Read(src=src)
    return d


def same(m, got, want, mech, *ctx):
    d = xg.diff(got, want)
    m.check(d is None, mech, d, *ctx)
    return d is None


def view(m, src, want, mech, canon=None):
    """the independent parser and pyslet agree that src (unicode or bytes) says want"""
    try:
        dom, errs = xg.jparse(src)
        seen = xg.jtree(dom.getDocumentElement())
    except java.lang.Exception as e:
        m.violate(mech + ':not-well-formed', '%s %r' % (e.getMessage(), src[:600]))
        return
    canon = canon or (lambda x: x)
    same(m, canon(seen), canon(want), mech + ':independent', src)
    d = pparse(src)
    same(m, canon(xg.of(d.root)), canon(want), mech + ':reparsed', src)
    return d


# where a white space string may move: nothing that touches text
def loose(t, preserve=False):
    s = t[1].get(u'xml:space')
    if s is not None:
        preserve = s == u'preserve'
    mixed = False
    for c in t[2]:
        if isinstance(c, basestring) and c.strip(u' \t\r\n'):
            mixed = True
    kids = []
    n = len(t[2])
    for i, c in enumerate(t[2]):
        if isinstance(c, tuple):
            kids.append(loose(c, preserve))
        elif preserve:
            kids.append(c)
        elif mixed:
            o = []
            for ch in c:
                ch = u' ' if ch in u'\t\r\n' else ch
                if ch != u' ' or not o or o[-1] != u' ':
                    o.append(ch)
            if i == 0 and o and o[0] == u' ':
                o.pop(0)
            if i == n - 1 and o and o[-1] == u' ':
                o.pop()
            x = u''.join(o)
            if x:
                kids.append(x)
    return (t[0], t[1], xg.norm(kids))


def fam_tree(m, r):
    ascii = r.random() < 0.4
    t = xg.tree(r, r.choice([0, 1, 2, 4]), ascii, r.choice([1, 3, 5]))
    mode = r.choice(['preserve', 'preserve', 'free', 'mixed'])
    if mode == 'preserve':
        t[1][u'xml:space'] = u'preserve'
    elif mode == 'mixed' and t[2]:
        t[2][r.randrange(len(t[2]))][1].update({u'xml:space': u'preserve'}) if isinstance(t[2][-1], tuple) and isinstance(t[2][0], tuple) and len(t[2]) == 1 else None
    m.key((t, mode))
    canon = None if mode == 'preserve' else loose
    d = xml.Document()
    root = xg.build(t, d)
    same(m, xg.of(root), t, 'built')
    out = []
    out.append(unicode(d))
    m.check(type(out[0]) is unicode, 'type')
    out.append(unicode(root))
    if ascii:
        out.append(str(d))
        out.append(str(root))
        m.count('ascii')
        for c in out[-1] + out[-2]:
            if ord(c) > 127:
                m.violate('not-ascii', out[-1])
                break
    for tab in ('', '  '):
        s = StringIO()
        d.WriteXML(s, tab=tab)
        out.append(s.getvalue())
    s = StringIO()
    d.Create(s)
    out.append(s.getvalue())
    m.eq(out[-1], out[0], 'create')
    m.eq(u''.join(d.GenerateXML()), out[0], 'generate')
    for x in out:
        e = view(m, x, t, 'tree-' + mode, canon)
        m.count('documents')
    # what was read is written the same again
    for i in (0, 2 if ascii else 0):
        e = pparse(out[i])
        s1 = unicode(e) if i == 0 else str(e)
        m.eq(s1, out[i], 'stable')
        m.check(e.root == root and not (e.root != root), 'equal', out[0])
        m.count('stable')
    e = pparse(out[0])
    m.check(e.DiffString(d) is None if ascii else True, 'diff-string')
    # one change anywhere makes it unequal
    if mode == 'preserve':
        t2, what = change(r, t)
        if t2 is not None:
            root2 = xg.build(t2, xml.Document())
            m.check(root != root2 and root2 != root, 'change-not-seen', what)
            m.eq(cmp(root, root2), -cmp(root2, root), 'antisymmetric', what)
            m.count('changes')
    # copies
    c = root.Copy()
    m.check(c.parent is None, 'copy-parent')
    same(m, xg.of(c), t, 'copy')
    d2 = xml.Document()
    c = root.Copy(d2)
    m.check(d2.root is c and c.parent is d2, 'copy-parent')
    same(m, xg.of(c), t, 'copy')
    for k in [k for k in c.GetChildren() if isinstance(k, xml.Element)]:
        c.DeleteChild(k)
    c.AddData(u'changed')
    same(m, xg.of(root), t, 'copy-shares-state')


def change(r, t):
    """a tree that differs from t in exactly one place"""
    kind = r.choice(['name', 'addattr', 'value', 'text', 'addchild', 'drop'])
    if t[2] and r.random() < 0.5:
        i = r.randrange(len(t[2]))
        if isinstance(t[2][i], tuple):
            x, what = change(r, t[2][i])
            if x is not None:
                return (t[0], t[1], t[2][:i] + [x] + t[2][i + 1:]), what
        else:
            return (t[0], t[1], t[2][:i] + [t[2][i] + u'!'] + t[2][i + 1:]), 'text'
    if kind == 'name':
        return (t[0] + u'x', t[1], t[2]), kind
    if kind in ('addattr', 'value'):
        a = dict(t[1])
        if kind == 'value' and [k for k in a if k != u'xml:space']:
            a[sorted(k for k in a if k != u'xml:space')[0]] += u'.'
        else:
            a[u'zzz'] = u''
        return (t[0], a, t[2]), kind
    if kind == 'drop' and t[2]:
        return (t[0], t[1], t[2][:-1]), kind
    return (t[0], t[1], t[2] + [(u'newchild', {}, [])]), 'addchild'


# ------------------------------------------------ typed elements

def dint(s):
    return int(s)


def dbool(s):
    if s == u'yes':
        return True
    elif s == u'no':
        return False
    raise ValueError(s)


class Leaf(xml.Element):
    XMLNAME = 'leaf'
    XMLATTR_kind = 'kind'
    XMLCONTENT = xml.XMLMixedContent


class Special(Leaf):
    XMLNAME = 'special'


class Blank(xml.Element):
    XMLNAME = 'blank'
    XMLATTR_n = ('n', dint, unicode)
    XMLCONTENT = xml.XMLEmpty
    ID = 'id'


class Opt(xml.Element):
    XMLNAME = 'opt'
    XMLCONTENT = xml.XMLMixedContent


class Loose(xml.Element):
    XMLNAME = 'loose'
    ID = 'id'
    XMLCONTENT = xml.XMLMixedContent


class Box(xml.Element):
    XMLNAME = 'box'
    ID = 'id'
    XMLATTR_size = ('size', dint, unicode)
    XMLATTR_on = ('on', dbool, lambda x: u'yes' if x else u'no')
    XMLATTR_names = ('names', None, None, list)
    XMLATTR_nums = ('nums', dint, unicode, list)
    XMLATTR_bag = ('bag', dint, unicode, dict)
    XMLCONTENT = xml.ElementContent

    def __init__(self, parent):
        xml.Element.__init__(self, parent)
        self.Opt = None
        self.Leaf = []
        self.Blank = []

    def GetChildren(self):
        if self.Opt:
            yield self.Opt
        for c in self.Leaf:
            yield c
        for c in self.Blank:
            yield c
        for c in xml.Element.GetChildren(self):
            yield c


CLASSES = dict((c.XMLNAME, c) for c in (Leaf, Special, Blank, Opt, Loose, Box))


class TDoc(xml.Document):

    @classmethod
    def GetElementClass(cls, name):
        return CLASSES.get(name, xml.Element)


def ws(r):
    return r.choice([u'', u' ', u'\n', u'\n\t', u'  \n'])


def nonws(r):
    while True:
        s = xg.text(r)
        if s.strip(u' \t\r\n'):
            return s


def box(r, d, ids, depth=3):
    """(element, tree) a random box under d"""
    e = d.ChildElement(Box)
    a = {}
    if r.random() < 0.5:
        i = 'id%i' % len(ids)
        ids[i] = e
        e.SetID(i)
        a[u'id'] = i
    if r.random() < 0.5:
        e.size = r.choice([0, -1, 7, 2 ** 40])
        a[u'size'] = unicode(e.size)
    if r.random() < 0.5:
        e.on = r.choice([True, False])
        a[u'on'] = u'yes' if e.on else u'no'
    if r.random() < 0.5:
        e.names = [xg.name(r) for i in range(r.randint(1, 3))]
        a[u'names'] = u' '.join(e.names)
    if r.random() < 0.4:
        e.nums = [r.randint(-5, 100) for i in range(r.randint(0, 4))]
        a[u'nums'] = u' '.join(unicode(x) for x in e.nums)
    if r.random() < 0.4:
        e.SetAttribute('bag', u' '.join(unicode(r.randint(0, 3)) for i in range(r.randint(0, 5))))
        vals = []
        for k, f in e.bag.items():
            vals += [unicode(k)] * f
        a[u'bag'] = u' '.join(sorted(vals))
    opt, leaves, blanks, rest = [], [], [], []
    for i in range(r.randint(0, 4)):
        k = r.randrange(6)
        if k == 0 and not opt:
            c = e.ChildElement(Opt)
            s = nonws(r)
            c.SetValue(s)
            opt.append((u'opt', {}, [s]))
        elif k == 1:
            c = e.ChildElement(r.choice([Leaf, Special]))
            s = nonws(r)
            c.SetValue(s)
            at = {}
            if r.random() < 0.5:
                c.kind = xg.text(r)
                at[u'kind'] = c.kind
            leaves.append((c.xmlname, at, [s]))
        elif k == 2:
            c = e.ChildElement(Blank)
            c.n = r.randint(-3, 3)
            blanks.append((u'blank', {u'n': unicode(c.n)}, []))
        elif k == 3:
            c = e.ChildElement(Loose)
            kids = [nonws(r)]
            c.AddData(kids[0])
            if r.random() < 0.5:
                j = 'id%i' % len(ids)
                b = c.ChildElement(Blank)
                b.SetID(j)
                ids[j] = b
                kids.append((u'blank', {u'id': j}, []))
                kids.append(u'tail' + nonws(r))
                c.AddData(kids[2])
            rest.append((u'loose', {}, kids))
        elif depth:
            x, tt = box(r, e, ids, depth - 1)
            rest.append(tt)
        if r.random() < 0.5:
            e.AddData(ws(r))
    return e, (u'box', a, opt + leaves + blanks + rest)


def fam_typed(m, r):
    d = TDoc()
    ids = {}
    root, t = box(r, d, ids)
    m.key(t)
    same(m, xg.of(root), t, 'typed-built')
    outs = [unicode(d)]
    for tab in ('', ' '):
        s = StringIO()
        d.WriteXML(s, tab=tab)
        outs.append(s.getvalue())
    for x in outs:
        try:
            seen = xg.jtree(xg.jparse(x)[0].getDocumentElement())
        except java.lang.Exception as ex:
            m.violate('typed-not-well-formed', '%s %r' % (ex.getMessage(), x[:500]))
            continue
        same(m, loose(seen), loose(t), 'typed-independent', x)
        e = TDoc()
        e.Read(src=x)
        same(m, loose(xg.of(e.root)), loose(t), 'typed-reparsed', x)
        m.check(e.root == root, 'typed-equal', x)
        if tab:
            pass
        fields(m, root, e.root)
        m.count('typed_documents')
        for i, el in ids.items():
            z = e.GetElementByID(i)
            m.check(z is not None and z.__class__ is el.__class__ and z.id == i, 'typed-ids', i)
            m.count('ids')
        m.eq(sorted(e.idTable.keys()), sorted(ids.keys()), 'typed-id-table')
    e = TDoc()
    e.Read(src=outs[0])
    m.eq(unicode(e), outs[0], 'typed-stable')
    c = root.Copy()
    same(m, loose(xg.of(c)), loose(t), 'typed-copy')
    fields(m, root, c)
    c2 = root.Copy(TDoc())
    same(m, loose(xg.of(c2)), loose(t), 'typed-copy')
    m.eq(sorted(c2.parent.idTable.keys()), sorted(ids.keys()), 'copy-ids')
    # data where only elements may be is refused, as is anything in an empty element
    bad = u'<box>%s</box>' % r.choice([u'x', u'<leaf>a</leaf>b', u'<box/>1'])
    m.raises(xml.XMLValidityError, 'stray-data', pparse_t, bad)
    m.raises(xml.XMLValidityError, 'empty-content', pparse_t, u'<box><blank>%s</blank></box>' % r.choice([u'x', u'<leaf/>', u'<blank/>']))
    m.raises(xml.XMLValidityError, 'duplicate-id', pparse_t, u'<box id="a"><blank id="a"/></box>')


def pparse_t(s):
    e = TDoc()
    p = XMLParser(xml.XMLEntity(s))
    p.raiseValidityErrors = True
    p.ParseDocument(e)
    return unicode(e)


def fields(m, a, b):
    """typed members agree"""
    for n in ('size', 'on', 'names', 'nums', 'bag'):
        x, y = getattr(a, n), getattr(b, n)
        if x in ([], {}):
            x = None
        if y in ([], {}):
            y = None
        m.check(x == y and type(x) == type(y) or isinstance(x, (int, long)) and x == y, 'typed-field', n, x, y)
        try:
            v = a.GetAttribute(n)
        except KeyError:
            v = None
        m.eq(a.GetAttributes().get(n), v, 'get-attribute', n)
    m.eq(len(a.Leaf), len(b.Leaf), 'typed-children')
    m.check((a.Opt is None) == (b.Opt is None), 'typed-children')
    for x, y in zip(a.Leaf, b.Leaf):
        m.check(x.__class__ is y.__class__ and x.kind == y.kind, 'typed-children', x.xmlname, y.xmlname)
        m.check(y.parent is b, 'typed-parent')
    for x, y in zip(a.Blank, b.Blank):
        m.check(x.n == y.n, 'typed-children')
    xa = [c for c in xml.Element.GetChildren(a) if isinstance(c, Box)]
    xb = [c for c in xml.Element.GetChildren(b) if isinstance(c, Box)]
    if m.eq(len(xb), len(xa), 'typed-children'):
        for x, y in zip(xa, xb):
            fields(m, x, y)


# ------------------------------------------------ encodings and sources

ENC = [('utf-8', '', None), ('utf-8', '', 'UTF-8'), ('utf-8', codecs.BOM_UTF8, None), ('utf-8', codecs.BOM_UTF8, 'UTF-8'), ('utf-8', '', 'utf-8'),
       ('utf-16-le', codecs.BOM_UTF16_LE, None), ('utf-16-be', codecs.BOM_UTF16_BE, None), ('utf-16-le', codecs.BOM_UTF16_LE, 'UTF-16'), ('utf-16-be', codecs.BOM_UTF16_BE, 'UTF-16'),
       ('iso-8859-1', '', 'ISO-8859-1'), ('iso-8859-1', '', 'iso-8859-1'), ('us-ascii', '', 'US-ASCII'), ('us-ascii', '', None), ('cp1252', '', 'windows-1252'), ('iso-8859-15', '', 'ISO-8859-15'),
       ('utf-16-le', '', 'UTF-16'), ('utf-16-be', '', 'UTF-16'), ('shift_jis', '', 'Shift_JIS'), ('euc_jp', '', 'EUC-JP'), ('koi8-r', '', 'KOI8-R')]

PLAIN = [u'a', u'b ', u' ', u'\n', u'&', u'<', u'>', u'"', u"'", u'word', u'1']
WIDE = PLAIN + [u'\xe9', u'\u20ac', u'\u4e2d\u6587', u'\u0416', u'\U0001f600', u'\u3042', u'\xa3', u'\uff21']


def encodable(c, enc):
    try:
        return c.encode(enc).decode(enc) == c
    except (UnicodeError, java.lang.Throwable):
        return False


def fam_encoding(m, r):
    enc, bom, decl = ENC[r.index % len(ENC)]
    pool = [c for c in WIDE if all(encodable(x, enc) for x in c)]
    refs = [c for c in WIDE if c not in pool]
    big = r.random() < 0.4
    if big and enc[:6] == 'utf-16':
        # Jython's own utf-16 reader fails on a surrogate pair split between reads
        refs = [c for c in refs + pool if ord(c[0]) > 0xffff]
        pool = [c for c in pool if ord(c[0]) <= 0xffff]
    n = r.randint(1500, 6000) if big else r.randint(0, 40)
    kids = []
    for i in range(r.randint(1, 4)):
        kids.append((u'p', {u'v': xg.text(r, 6, pool + refs)}, [u''.join(r.choice(pool + refs) for k in range(max(1, n // 3)))]))
    t = (u'doc', {}, kids)
    head = u''
    if decl:
        q = r.choice(u'\'"')
        head = u'<?xml version=%s1.0%s encoding=%s%s%s%s?>' % (q, q, q, decl, q, r.choice([u'', u" standalone='yes'", u' ']))
    elif r.random() < 0.3:
        head = u'<?xml version="1.0"?>'
    if head:
        head += r.choice([u'', u'\n', u'\n\n'])
    nl = r.choice([u'\n', u'\n', u'\r\n', u'\r'])

    def esc(s, attr=False):
        o = []
        for c in s:
            if c in u'<&>"\'' or attr and c in u'\n\t':
                o.append(u'&#%i;' % ord(c) if r.random() < 0.5 else u'&#x%X;' % ord(c))
            elif c == u'\n':
                o.append(nl)
            elif not encodable(c, enc) or big and enc[:6] == 'utf-16' and ord(c[0]) > 0xffff:
                o.append(u'&#%i;' % ord(c))
            else:
                o.append(c)
        return u''.join(o)
    body = u'<doc>' + u''.join(u'<p v="%s">%s</p>' % (esc(k[1][u'v'], True), esc(k[2][0])) for k in kids) + u'</doc>'
    src = head + body
    data = bom + src.encode(enc)
    m.key(data)
    m.sample('%s bom=%s decl=%s %i bytes' % (enc, bool(bom), decl, len(data)))
    # the documents say what was meant
    dom, errs = xg.jparse(data)
    same(m, xg.jtree(dom.getDocumentElement()), t, 'harness', data[:200])
    ways = {}
    ways['bytes'] = lambda: pparse(StringIO(data) if False else xml.XMLEntity(data))
    ways['src'] = lambda: pparse(data)
    path = os.path.join(SCRATCH[0], 'd%i.xml' % r.index)
    f = open(path, 'wb')
    f.write(data)
    f.close()

    def byfile():
        g = open(path, 'rb')
        try:
            return pparse(g)
        finally:
            g.close()
    ways['file'] = byfile

    def byuri():
        d = xml.Document(baseURI=URIFactory.URLFromPathname(path))
        d.Read()
        return d
    ways['uri'] = byuri
    ways['entity-uri'] = lambda: pparse(xml.XMLEntity(URIFactory.URLFromPathname(path)))
    if not decl and not bom and enc == 'utf-8':
        ways['declared'] = lambda: pparse(xml.XMLEntity(data, 'utf-8'))
    if enc in ('iso-8859-1', 'cp1252', 'us-ascii', 'utf-8', 'koi8-r', 'shift_jis') and not bom:
        ways['hint'] = lambda: pparse(xml.XMLEntity(data, enc))
    ways['unicode'] = lambda: pparse(src)
    try:
        for w in sorted(ways):
            try:
                d = ways[w]()
            except (xml.XMLError, UnicodeError, LookupError) as e:
                m.violate('unread:%s:%s' % (enc, w), '%s %r' % (e, data[:300]))
                continue
            same(m, xg.of(d.root), t, 'encoding:%s:%s' % (enc, w), data[:200])
            m.count('reads')
    finally:
        os.remove(path)


# ------------------------------------------------ files

def fam_files(m, r):
    base = os.path.join(SCRATCH[0], 'f%i' % r.index)
    path = os.path.join(base, r.choice(['', 'sub', 'sub dir/x']), r.choice(['a.xml', 'b c.xml', 'd#e.xml', 'p%20q.xml']))
    t = xg.tree(r, 2)
    t[1][u'xml:space'] = u'preserve'
    m.key((path, t))
    d = xml.Document()
    xg.build(t, d)
    m.raises(xml.XMLMissingLocationError, 'no-location', d.Create)
    m.raises(xml.XMLMissingLocationError, 'no-location', d.Update)
    m.raises(xml.XMLMissingLocationError, 'no-location', xml.Document().Read)
    d.SetBase(URIFactory.URLFromPathname(path))
    m.raises(xml.XMLMissingResourceError, 'update-missing', d.Update)
    m.check(not os.path.exists(path), 'update-creates')
    try:
        d.Create()
        m.check(os.path.isfile(path), 'create', path)
        for step in range(r.randint(1, 3)):
            data = open(path, 'rb').read()
            m.eq(data.decode('utf-8'), unicode(d), 'file-content')
            view(m, data, t, 'file')
            e = xml.Document(baseURI=URIFactory.URLFromPathname(path))
            e.Read()
            same(m, xg.of(e.root), t, 'file-read')
            m.count('files')
            t = xg.tree(r, 2)
            t[1][u'xml:space'] = u'preserve'
            d.root.parent
            xg.build(t, d)
            d.Update()
        e.Read()
        same(m, xg.of(e.root), t, 'file-update')
        m.eq(sorted(os.listdir(os.path.dirname(path))), [os.path.basename(path)], 'stray-files')
    finally:
        shutil.rmtree(base, True)


# ------------------------------------------------ histories of edits

class IElement(xml.Element):
    ID = 'id'


class Sub(IElement):
    pass


def fam_history(m, r):
    """tree edits against a list model; ids; find methods"""
    d = xml.Document()
    root = d.ChildElement(IElement, u'root')
    live = [root]               # elements in the document, any order
    kids = {root: []}
    par = {root: None}
    ids = {}
    orphans = []
    trace = []

    def down(e):
        yield e
        for c in kids[e]:
            if not isinstance(c, basestring):
                for x in down(c):
                    yield x
    for step in range(r.randint(4, 30)):
        k = r.randrange(10)
        live = list(down(root))
        e = r.choice(live)
        if k < 3:
            cls = r.choice([IElement, Sub, xml.Element])
            n = xg.name(r)
            c = e.ChildElement(cls, n)
            trace.append(('child', n))
            kids[e].append(c)
            kids[c] = []
            par[c] = e
            m.check(c.parent is e and c.xmlname == n and c.GetDocument() is d, 'child')
        elif k < 5:
            s = xg.text(r)
            trace.append(('data', s))
            e.AddData(s)
            kids[e] = xg.norm(kids[e] + [s])
        elif k < 7:
            if not isinstance(e, IElement):
                continue
            i = r.choice([u'a', u'b', u'c', u'\xe9', u'_d'])
            trace.append(('id', i))
            owner = ids.get(i)
            if owner is not None and owner is not e:
                m.raises(xml.XMLIDClashError, 'id-clash', e.SetID, i)
            else:
                e.SetID(i)
                for j in [j for j in ids if ids[j] is e]:
                    del ids[j]
                ids[i] = e
            if r.random() < 0.3:
                m.raises(xml.XMLIDValueError, 'id-value', e.SetID, r.choice([u'1a', u'', u'a b', u'-', u'a<']))
        elif k == 7 and e is not root:
            p = par[e]
            trace.append(('delete', e.xmlname))
            p.DeleteChild(e)
            kids[p] = xg.norm([c for c in kids[p] if c is not e])
            gone = list(down(e))
            for j in [j for j in ids if ids[j] in gone]:
                del ids[j]
            m.check(e.parent is None and e.GetDocument() is None, 'deleted-parent')
            m.raises(xml.XMLUnknownChild, 'deleted-twice', p.DeleteChild, e)
            p.ContentChanged()
            orphans.append(e)
        elif k == 8:
            trace.append(('value',))
            s = xg.text(r)
            gone = [x for c in kids[e] if not isinstance(c, basestring) for x in down(c)]
            if gone and r.random() < 0.6:
                m.raises(xml.XMLMixedContentError, 'value-of-mixed', e.GetValue)
                m.eq(e.GetValue(True), u''.join(c for c in kids[e] if isinstance(c, basestring)), 'value')
                continue
            e.SetValue(s)
            for j in [j for j in ids if ids[j] in gone]:
                del ids[j]
            kids[e] = [s]
            m.eq(e.GetValue(), s, 'value')
        else:
            n, v = xg.name(r), xg.text(r)
            e.SetAttribute(n, v)
            m.eq(e.GetAttribute(n), v, 'attribute')
            e.SetAttribute(n, None)
            m.raises(KeyError, 'attribute-removed', e.GetAttribute, n)
            m.check(n not in e.GetAttributes(), 'attribute-removed')
        for i in (u'a', u'b', u'c', u'\xe9', u'_d'):
            m.check(d.GetElementByID(i) is ids.get(i), 'id-table', i, trace)
        u = d.GetUniqueID(r.choice([None, 'a', 'b']))
        m.check(d.GetElementByID(u) is None, 'unique-id', u)

    def shape(e):
        return [c if isinstance(c, basestring) else (c, shape(c)) for c in kids[e]]

    def real(e):
        return xg.norm([c if isinstance(c, basestring) else (c, real(c)) for c in e.GetChildren()])

    def eqv(a, b):
        return len(a) == len(b) and all((x == y) if isinstance(x, basestring) or isinstance(y, basestring) else (x[0] is y[0] and eqv(x[1], y[1])) for x, y in zip(a, b))
    m.key(trace)
    m.check(eqv(real(root), shape(root)), 'history', trace)
    m.count('histories')
    order = list(down(root))[1:]
    got = list(root.FindChildrenDepthFirst(xml.Element))
    m.check(len(got) == len(order) and all(a is b for a, b in zip(got, order)), 'depth-first', trace)
    got = list(root.FindChildrenBreadthFirst(xml.Element))
    m.check(len(got) == len(order) and set(map(id, got)) == set(map(id, order)), 'breadth-first', trace)
    level = [c for c in kids[root] if not isinstance(c, basestring)]
    m.check(len(got) >= len(level) and all(a is b for a, b in zip(got, level)), 'breadth-first', trace)
    got = list(root.FindChildrenDepthFirst(Sub))
    want = [x for x in order if isinstance(x, Sub)]
    m.check(len(got) == len(want) and all(a is b for a, b in zip(got, want)), 'depth-first', trace)
    outer = []

    def walk(e):
        for c in kids[e]:
            if isinstance(c, basestring):
                continue
            if isinstance(c, Sub):
                outer.append(c)
            else:
                walk(c)
    walk(root)
    for f in (root.FindChildrenDepthFirst, root.FindChildrenBreadthFirst):
        got = list(f(Sub, False))
        m.check(set(map(id, got)) == set(map(id, outer)) and len(got) == len(outer), 'outermost', trace)
        got = list(f(xml.Element, True, 1))
        m.check(len(got) == len(level) and all(a is b for a, b in zip(got, level)), 'max-depth', trace)
    for x in order:
        p = par[x]
        while p is not None and not isinstance(p, Sub):
            p = par[p]
        m.check(x.FindParent(Sub) is p, 'find-parent', trace)


def fam_escape(m, r):
    """the escape functions as character data, attribute values and CDATA"""
    s = xg.text(r, 12)
    m.key(s)
    for f in (xml.EscapeCharData, xml.EscapeCharData7):
        for src in (u'<a xml:space="preserve">%s</a>' % f(s), u'<a b=%s/>' % f(s, True)):
            dom, errs = xg.jparse(src)
            e = dom.getDocumentElement()
            got = e.getTextContent() if u'b' not in dict(xg.jtree(e)[1]) else e.getAttribute('b')
            m.eq(got, s, 'escape', src)
            m.count('escapes')
        if f is xml.EscapeCharData7:
            m.check(all(ord(c) < 128 for c in f(s) + f(s, True)), 'escape7', s)
    t = s.replace(u'\r', u'')
    src = u'<a>%s</a>' % xml.EscapeCDSect(t)
    m.eq(xg.jparse(src)[0].getDocumentElement().getTextContent(), t, 'cdata', src)
    m.eq(pparse(src).root.GetValue(), t, 'cdata', src)


FAMILIES = [
    Family('tree', fam_tree, 900, 12000, need=dict(documents=4000, stable=1000, changes=200)),
    Family('typed', fam_typed, 900, 10000, need=dict(typed_documents=2000, ids=1000)),
    Family('encoding', fam_encoding, 600, 6000, need=dict(reads=2500)),
    Family('files', fam_files, 250, 2500, need=dict(files=250)),
    Family('history', fam_history, 1500, 20000, need=dict(histories=1000)),
    Family('escape', fam_escape, 3000, 30000, need=dict(escapes=10000)),
]
