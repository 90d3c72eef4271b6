"""XML generators and the independent parser (JAXP/Xerces) shared by the XML monitors.

A tree is (name, attrs, children): attrs a dict, children a list of trees and
non-empty unicode strings with no two strings adjacent."""

import java.lang
from java.io import StringReader, ByteArrayInputStream
from javax.xml.parsers import DocumentBuilderFactory
from org.xml.sax import InputSource, ErrorHandler, EntityResolver
import pyslet.xml20081126.structures as xml

START = u'abcdefgxyzABCXYZ_\xc9\xdf\u03b1\u0416\u4e2d\u3042\u05d0'
REST = START + u'0123456789-.\xb7\u0301'
TEXT = [u'a', u'b', u'Z', u'0', u' ', u' ', u'  ', u'\n', u'\t', u'\r', u'\r\n', u'<', u'>', u'&', u'"', u"'", u']]>', u']', u'&amp;', u'&#38;', u'<!--', u'-->', u'<?x?>',
        u'\x7f', u'\x85', u'\xa0', u'\xe9', u'\u0100', u'\u2028', u'\u4e2d\u6587', u'\ufffd', u'\U0001f600', u'\U0010fffd', u'\ud7ff', u'\ue000', u'%', u'%x;', u'{', u'\\', u'--', u'?>', u'text', u'word word']


def name(r, ascii=False):
    n = r.choice(START[:14] if ascii else START)
    for i in range(r.choice([0, 0, 1, 2, 3, 6])):
        n += r.choice(u'abcXYZ_-.019' if ascii else REST)
    return n if n[:3].lower() != 'xml' else u'q' + n


def text(r, hi=6, pool=TEXT):
    return u''.join(r.choice(pool) for i in range(r.randint(1, hi)))


def norm(children):
    out = []
    for c in children:
        if isinstance(c, basestring):
            if not c:
                continue
            if out and isinstance(out[-1], basestring):
                out[-1] += c
                continue
        out.append(c)
    return out


def tree(r, depth=4, ascii=False, size=4, pool=TEXT, names=None):
    n = r.choice(names) if names else name(r, ascii)
    attrs = {}
    for i in range(r.choice([0, 0, 1, 2, 3])):
        attrs[name(r, ascii)] = r.choice([u'', u' ', text(r, 4, pool), text(r, 8, pool)])
    kids = []
    for i in range(r.randint(0, size)):
        if depth and r.random() < 0.5:
            kids.append(tree(r, depth - 1, ascii, size, pool, names))
        else:
            kids.append(text(r, 6, pool))
    return (n, attrs, norm(kids))


def build(t, parent):
    """a pyslet element for t"""
    e = parent.ChildElement(xml.Element, t[0])
    for k, v in t[1].items():
        e.SetAttribute(k, v)
    for c in t[2]:
        if isinstance(c, tuple):
            build(c, e)
        else:
            e.AddData(c)
    e.ContentChanged()
    return e


def of(e):
    """pyslet element -> tree"""
    return (e.GetXMLName(), dict(e.GetAttributes()), norm([of(c) if isinstance(c, xml.Element) else c for c in e.GetChildren()]))


class Strict(ErrorHandler):

    def __init__(self, validating=False):
        self.validating = validating
        self.errors = []

    def warning(self, e):
        pass

    def error(self, e):
        self.errors.append(e.getMessage())

    def fatalError(self, e):
        raise e


class Empty(EntityResolver):

    def resolveEntity(self, p, s):
        return InputSource(StringReader(''))


def jparse(src, ns=False, validate=False):
    """DOM document and validity errors; raises java.lang.Exception if not well-formed"""
    f = DocumentBuilderFactory.newInstance()
    f.setCoalescing(True)
    f.setExpandEntityReferences(True)
    f.setNamespaceAware(ns)
    f.setValidating(validate)
    f.setAttribute('http://www.oracle.com/xml/jaxp/properties/entityExpansionLimit', '0')
    b = f.newDocumentBuilder()
    h = Strict()
    b.setErrorHandler(h)
    b.setEntityResolver(Empty())
    if isinstance(src, unicode):
        s = InputSource(StringReader(src))
    else:
        s = InputSource(ByteArrayInputStream(src))
    return b.parse(s), h.errors


def jtree(n, ns=False):
    """DOM element -> tree"""
    attrs = {}
    a = n.getAttributes()
    for i in range(a.getLength()):
        x = a.item(i)
        if ns:
            if x.getNamespaceURI() == 'http://www.w3.org/2000/xmlns/':
                continue
            attrs[(x.getNamespaceURI(), x.getLocalName())] = x.getNodeValue()
        else:
            attrs[x.getNodeName()] = x.getNodeValue()
    kids = []
    c = n.getFirstChild()
    while c is not None:
        if c.getNodeType() == 1:
            kids.append(jtree(c, ns))
        elif c.getNodeType() in (3, 4):
            kids.append(c.getNodeValue())
        elif c.getNodeType() == 5:
            kids.extend(jtree(c, ns)[2] if False else [])
        c = c.getNextSibling()
    return ((n.getNamespaceURI(), n.getLocalName()) if ns else n.getNodeName(), attrs, norm(kids))


def diff(a, b, path='/'):
    """first difference between two trees, or None"""
    if a[0] != b[0]:
        return path, 'name', a[0], b[0]
    path += '%s/' % (a[0],) if not isinstance(a[0], unicode) else a[0].encode('ascii', 'backslashreplace') + '/'
    if a[1] != b[1]:
        for k in set(a[1]) | set(b[1]):
            if a[1].get(k) != b[1].get(k):
                return path, 'attribute', k, a[1].get(k), b[1].get(k)
    for i in range(max(len(a[2]), len(b[2]))):
        x = a[2][i] if i < len(a[2]) else None
        y = b[2][i] if i < len(b[2]) else None
        if isinstance(x, tuple) and isinstance(y, tuple):
            d = diff(x, y, path)
            if d:
                return d
        elif x != y:
            return path, 'child %i' % i, x, y
    return None


def squash(t, preserve=False):
    """tree with white space canonicalised where xml:space is not preserve"""
    s = t[1].get(u'xml:space')
    if s is not None:
        preserve = (s == u'preserve')
    kids = []
    for i, c in enumerate(t[2]):
        if isinstance(c, tuple):
            kids.append(squash(c, preserve))
        elif preserve:
            kids.append(c)
        else:
            c = u' '.join(x for x in c.replace(u'\n', u' ').replace(u'\t', u' ').replace(u'\r', u' ').split(u' ') if x)
            if c:
                kids.append(c)
    return (t[0], t[1], kids)
