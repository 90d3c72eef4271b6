# -*- coding: utf-8 -*-
"""A01 Atom feeds, entries, service documents and request bodies keep their content"""

import io
import re
import StringIO
from lib import Family
import odh
import pyslet.iso8601 as iso8601
import pyslet.rfc4287 as atom
import pyslet.rfc5023 as app
import pyslet.rfc2396 as uri
import pyslet.html40_19991224 as html
import pyslet.xml20081126.structures as xml
import pyslet.xmlnames20091208 as xmlns
import java.lang
import java.time

PROPERTY = 'A01'
ATOM = 'http://www.w3.org/2005/Atom'
APP = 'http://www.w3.org/2007/app'
XH = 'http://www.w3.org/1999/xhtml'
XML = 'http://www.w3.org/XML/1998/namespace'
TT = atom.TextType

TEXTS = [u'plain', u'a & b', u'<b>not markup</b>', u' leading and trailing ', u'\xe9\u82f1', u'', u'quote " and \'', u'two\nlines', u'tab\tbed', u']]>', u'&amp;', u'x' * 60, u'1 < 2 > 0', u'&lt;p&gt;', u'line\n  indented\n']
URIS = [u'http://example.org/', u'http://example.org/a?b=c&d=e#f', u'/rel/path', u'../up', u'urn:uuid:60a76c80-d399-11d9-b93C-0003939e0af6', u'tag:example.org,2003:3.2397', u'mailto:a@b.example', u'?q', u'a%20b']


def esc(s, q=False):
    for a, b in ((u'&', u'&amp;'), (u'<', u'&lt;'), (u'>', u'&gt;'), (u'"', u'&quot;')):
        s = s.replace(a, b)
    if q:
        s = s.replace(u'\n', u'&#10;').replace(u'\t', u'&#9;')
    return s


def text(r):
    return r.choice(TEXTS) if r.random() < .7 else u''.join(r.choice(u'ab <>&"\'\xe9\n;#x') for i in range(r.randint(0, 12)))


def date(r):
    y, mo, d, h, mi, s = r.randint(1, 9999), r.randint(1, 12), r.randint(1, 28), r.randint(0, 23), r.randint(0, 59), r.randint(0, 59)
    z = r.choice([u'Z', u'Z', u'+00:00', u'-05:00', u'+05:30', u'+14:00', u'-00:30', u'-12:45'])
    f = r.choice([u'', u'', u'.5', u'.25', u'.123'])
    return u'%04d-%02d-%02dT%02d:%02d:%02d%s%s' % (y, mo, d, h, mi, s, f, z)


def instant(s):
    t = java.time.OffsetDateTime.parse(s)
    return t.toInstant().toString(), t.getOffset().toString(), t.toLocalDateTime().toString()


def tp_fields(tp):
    """A TimePoint as (year..second, zone minutes)"""
    d, t = tp.date, tp.time
    c, y, mo, dd = d.GetCalendarDay()
    h, mi, s = t.GetTime()
    zd, zo = t.GetZone()
    return (c * 100 + y, mo, dd, h, mi, float(s), zd * zo if zd else zo)


def str_fields(s):
    t = java.time.OffsetDateTime.parse(s)
    return (t.getYear(), t.getMonthValue(), t.getDayOfMonth(), t.getHour(), t.getMinute(), t.getSecond() + t.getNano() / 1e9, t.getOffset().getTotalSeconds() // 60)


# --- documents: a model element is (ns, name, {attr: value}, content) where
# content is a list of strings and elements, in document order

def common(r, at):
    if r.random() < .12:
        at[(XML, u'lang')] = r.choice([u'en', u'fr-CA', u'zh-Hans'])
    if r.random() < .12:
        at[(XML, u'base')] = r.choice([u'http://example.org/base/', u'sub/', u'../x/'])
    return at


XHT = [u'p', u'em', u'b', u'div', u'span', u'i', u'a']


def xh(r, d):
    """xhtml content"""
    out = []
    for i in range(r.choice([1, 1, 2, 3])):
        if d and r.random() < .5:
            n = r.choice(XHT)
            at = {(None, u'class'): u'c1'} if r.random() < .3 else {}
            if n == u'a':
                at[(None, u'href')] = r.choice(URIS)
            out.append((XH, n, at, xh(r, d - 1)))
        elif out and not isinstance(out[-1], tuple):
            out[-1] += u' ' + text(r)
        else:
            out.append(text(r) or u'.')
    return out


def foreign(r, d=1):
    n = r.choice([u'ext', u'x', u'data'])
    return (r.choice([u'http://ext.example/', u'urn:other']), n, common(r, {(None, u'k'): text(r)} if r.random() < .5 else {}), [text(r) or u'.'] if d == 0 or r.random() < .5 else [foreign(r, d - 1) for i in range(r.randint(1, 3))])


def textcon(r, name):
    t = r.choice([None, u'text', u'html', u'xhtml'])
    at = common(r, {})
    if t:
        at[(None, u'type')] = t
    if t == u'xhtml':
        return (ATOM, name, at, [(XH, u'div', {}, xh(r, 3))])
    return (ATOM, name, at, [text(r)])


def content(r):
    c = r.random()
    if c < .6:
        return textcon(r, u'content')
    at = common(r, {})
    if c < .75:
        at[(None, u'src')] = r.choice(URIS)
        if r.random() < .6:
            at[(None, u'type')] = r.choice([u'image/png', u'text/html; charset=utf-8', u'application/pdf'])
        return (ATOM, u'content', at, [])
    if c < .88:
        at[(None, u'type')] = r.choice([u'application/xml', u'image/svg+xml', u'application/x+xml'])
        return (ATOM, u'content', at, [foreign(r, 2)])
    at[(None, u'type')] = r.choice([u'text/plain', u'text/x-y', u'application/octet-stream'])
    return (ATOM, u'content', at, [text(r)])


def person(r, name):
    l = [(ATOM, u'name', {}, [text(r)])]
    if r.random() < .5:
        l.append((ATOM, u'uri', {}, [r.choice(URIS)]))
    if r.random() < .5:
        l.append((ATOM, u'email', {}, [u'a.b@example.com']))
    if r.random() < .15:
        l.append(foreign(r))
    r.shuffle(l)
    return (ATOM, name, common(r, {}), l)


def link(r):
    at = common(r, {(None, u'href'): r.choice(URIS)})
    for k, v in ((u'rel', [u'alternate', u'self', u'enclosure', u'http://x/rel']), (u'type', [u'text/html', u'audio/mpeg']), (u'hreflang', [u'en']), (u'title', TEXTS), (u'length', [u'0', u'1337', u'2147483647'])):
        if r.random() < .4:
            at[(None, k)] = r.choice(v)
    return (ATOM, u'link', at, [foreign(r)] if r.random() < .05 else [])


def category(r):
    at = common(r, {(None, u'term'): text(r)})
    if r.random() < .5:
        at[(None, u'scheme')] = r.choice(URIS)
    if r.random() < .5:
        at[(None, u'label')] = text(r)
    return (ATOM, u'category', at, [])


def some(r, f, *a):
    return [f(r, *a) for i in range(r.choice([0, 0, 1, 1, 2, 3]))]


def entity(r, kind):
    opt = kind == u'source'
    l = []
    for n in (u'id', u'title', u'updated'):
        if not opt or r.random() < .6:
            l.append({u'id': lambda: (ATOM, u'id', common(r, {}), [r.choice(URIS)]), u'title': lambda: textcon(r, u'title'), u'updated': lambda: (ATOM, u'updated', common(r, {}), [date(r)])}[n]())
    l += some(r, person, u'author') + some(r, person, u'contributor') + some(r, category) + some(r, link)
    if r.random() < .4:
        l.append(textcon(r, u'rights'))
    if kind != u'entry':
        if r.random() < .4:
            at = {}
            if r.random() < .5:
                at[(None, u'uri')] = r.choice(URIS)
            if r.random() < .5:
                at[(None, u'version')] = text(r)
            l.append((ATOM, u'generator', common(r, at), [text(r)]))
        for n in (u'icon', u'logo'):
            if r.random() < .3:
                l.append((ATOM, n, {}, [r.choice(URIS)]))
        if r.random() < .4:
            l.append(textcon(r, u'subtitle'))
    if kind == u'feed':
        l += some(r, entity, u'entry')
    if kind == u'entry':
        if r.random() < .7:
            l.append(content(r))
        if r.random() < .4:
            l.append((ATOM, u'published', {}, [date(r)]))
        if r.random() < .25:
            l.append(entity(r, u'source'))
        if r.random() < .5:
            l.append(textcon(r, u'summary'))
    l += [foreign(r) for i in range(r.choice([0, 0, 0, 1, 2]))]
    r.shuffle(l)
    return (ATOM, kind, common(r, {}), l)


PFX = {ATOM: [u'', u'atom', u'a'], APP: [u'', u'app'], XH: [u'', u'h', u'xhtml'], u'http://ext.example/': [u'', u'ext'], u'urn:other': [u'o', u'']}


def out(r, e, scope, pad=u''):
    """XML source of a model element, with random prefixes and layout"""
    ns, n, at, ch = e
    decl = u''
    cand = [p for p, u in scope.items() if u == ns]
    if cand and r.random() < .85:
        p = r.choice(sorted(cand))
    else:
        p = r.choice(PFX[ns])
        scope = dict(scope)
        scope[p] = ns
        decl = u' xmlns%s="%s"' % (u':' + p if p else u'', ns)
    tag = p + u':' + n if p else n
    s = u'<' + tag + decl
    ks = sorted(at)
    r.shuffle(ks)
    for a in ks:
        s += u'%s%s="%s"' % (r.choice([u' ', u'\n']), (u'xml:' if a[0] == XML else u'') + a[1], esc(at[a], True))
    if not ch:
        return s + r.choice([u'/>', u'></%s>' % tag])
    s += u'>'
    els = all(isinstance(c, tuple) for c in ch)
    ws = r.choice([u'', u'\n', u'\n\t']) if els and ns in (ATOM, APP) and n not in (u'content', u'title', u'subtitle', u'summary', u'rights') else u''
    for c in ch:
        s += ws + (out(r, c, scope) if isinstance(c, tuple) else (u'<![CDATA[%s]]>' % c if c and r.random() < .1 and u']]>' not in c else esc(c)))
    return s + ws + u'</%s>' % tag


TEXTCON = (u'content', u'title', u'subtitle', u'summary', u'rights')


def canon(ns, n, at, ch):
    """order-insensitive among different element names of the container elements"""
    at = dict(at)
    if ns == ATOM and n in TEXTCON and at.get((None, u'type')) == u'text':
        del at[(None, u'type')]
    if (ns, n) in STRUCT:
        ch = sorted(ch, key=lambda c: (c[0], c[1]))
    return (ns, n, tuple(sorted(at.items())), tuple(ch))


STRUCT = set([(ATOM, x) for x in (u'feed', u'entry', u'source', u'author', u'contributor')] + [(APP, x) for x in (u'service', u'workspace', u'collection', u'categories')])


def canon_model(e):
    ns, n, at, ch = e
    return canon(ns, n, at, tuple(canon_model(c) if isinstance(c, tuple) else c for c in ch if c != u''))


def canon_dom(e):
    ns, n = e.getNamespaceURI(), e.getLocalName()
    at = {}
    a = e.getAttributes()
    for i in range(a.getLength()):
        x = a.item(i)
        if x.getNamespaceURI() != 'http://www.w3.org/2000/xmlns/':
            at[(x.getNamespaceURI(), x.getLocalName())] = x.getNodeValue()
    ch = []
    c = e.getFirstChild()
    while c is not None:
        if c.getNodeType() == 1:
            ch.append(canon_dom(c))
        elif c.getNodeType() in (3, 4):
            if ch and not isinstance(ch[-1], tuple):
                ch[-1] += c.getNodeValue()
            else:
                ch.append(c.getNodeValue())
        c = c.getNextSibling()
    if (ns, n) in STRUCT or any(isinstance(c, tuple) for c in ch) and ns == ATOM:
        # layout space of element content
        ch = [c for c in ch if isinstance(c, tuple) or c.strip()]
    return canon(ns, n, at, ch)


def jdom(s):
    b = odh._dbf.newDocumentBuilder()
    b.setErrorHandler(None)
    return canon_dom(b.parse(odh.InputSource(odh.ByteArrayInputStream(s.encode('utf-8')))).getDocumentElement())


def soft(t):
    """Canonical form with the space of texts folded: writing a document
    reformats it (xml:space is not preserve here)"""
    return t[:3] + (tuple(c for c in (soft(c) if isinstance(c, tuple) else u' '.join(c.split()) for c in t[3]) if c),)


def softmodel(e):
    return (e[0], e[1], e[2], [c for c in (softmodel(c) if isinstance(c, tuple) else u' '.join(c.split()) for c in e[3]) if c])


def marks(t):
    return u''.join(u'\x01%s\x02%s\x03' % (c[1], marks(c)) if isinstance(c, tuple) else re.sub(u'[ \t\n\r]+', u' ', c) for c in t[3])


def added(got, want):
    """True if the texts differ by more than space taken out of want"""
    i = 0
    for c in got:
        while i < len(want) and want[i] == u' ' and c != u' ':
            i += 1
        if i >= len(want) or want[i] != c:
            return True
        i += 1
    return bool(want[i:].strip(u' '))


def diff(a, b, path=u''):
    if a[:2] != b[:2]:
        return '%s: %s / %s' % (path, a[:2], b[:2])
    path += u'/' + a[1]
    if a[2] != b[2]:
        return '%s attributes %s / %s' % (path, a[2], b[2])
    if len(a[3]) != len(b[3]):
        return '%s children %s / %s' % (path, [c if not isinstance(c, tuple) else c[1] for c in a[3]], [c if not isinstance(c, tuple) else c[1] for c in b[3]])
    for x, y in zip(a[3], b[3]):
        if isinstance(x, tuple) != isinstance(y, tuple):
            return '%s: %r / %r' % (path, x, y)
        if isinstance(x, tuple):
            d = diff(x, y, path)
            if d:
                return d
        elif x != y:
            return '%s text %r / %r' % (path, x, y)


# --- the object model against the document model -------------------------------

def kids(e, name, ns=ATOM):
    return [c for c in e[3] if isinstance(c, tuple) and c[:2] == (ns, name)]


def flat(e):
    return u''.join(flat(c) if isinstance(c, tuple) else c for c in e[3])


def look(m, e, x, what):
    """Compare library element e with model element x"""
    m.check(e.GetLang() == x[2].get((XML, u'lang')), what + ' lang', e.GetLang(), x[2])
    b = e.GetBase()
    m.check((None if b is None else unicode(b)) == x[2].get((XML, u'base')), what + ' base', b, x[2])


SOFT = [False]


def same(a, b):
    return u' '.join(a.split()) == u' '.join(b.split()) if SOFT[0] else a == b


def look_text(m, e, x):
    look(m, e, x, x[1])
    t = x[2].get((None, u'type'), u'text')
    if t in (u'text', u'html', u'xhtml'):
        m.check(e.type == getattr(TT, t), 'text type', x[1], t, e.type)
        if t != u'xhtml':
            m.check(same(e.GetValue(), flat(x)), 'text value', e.GetValue(), x)
        else:
            check_markup(m, e.GetValue(), x[3][0][3], 'xhtml value')
    else:
        m.check(e.type == t, 'media type', e.type, t)
        m.raises((ValueError,), 'value of media content', e.GetValue)
    m.count('text_' + (t if t in (u'text', u'html', u'xhtml') else u'media'))


def check_markup(m, got, nodes, what):
    """got is the markup of the given content (without the div)"""
    try:
        d = jdom(u'<div xmlns="%s">%s</div>' % (XH, got))
    except (Exception, java.lang.Throwable) as ex:
        m.violate(what, 'not well formed: %r (%s) from %r' % (got, ex, nodes))
        return
    w = canon_model((XH, u'div', {}, nodes))
    m.check(diff(soft(d), soft(w)) is None, what, diff(soft(d), soft(w)), got, nodes)
    m.check(not added(marks(d), marks(w)), what + ' space', got, nodes)


def look_person(m, e, x):
    look(m, e, x, 'person')
    m.check(same(e.Name.GetValue(), flat(kids(x, u'name')[0])), 'person name', e.Name.GetValue(), x)
    for n, a in ((u'uri', e.URI), (u'email', e.Email)):
        k = kids(x, n)
        m.check((a is None) == (not k) and (a is None or a.GetValue() == flat(k[0])), 'person ' + n, a, k)
    m.count('persons')


def look_entity(m, e, x, kind):
    look(m, e, x, kind)
    k = kids(x, u'id')
    m.check((e.AtomId is None) == (not k) and (not k or e.AtomId.GetValue() == flat(k[0])), kind + ' id', k)
    for n, a in ((u'title', e.Title), (u'rights', e.Rights), (u'subtitle', getattr(e, 'Subtitle', None)), (u'summary', getattr(e, 'Summary', None)), (u'content', getattr(e, 'Content', None))):
        k = kids(x, n)
        m.check((a is None) == (not k), kind + ' ' + n, a, k)
        if k:
            look_text(m, a, k[0])
            if n == u'content':
                s = k[0][2].get((None, u'src'))
                m.check((None if a.src is None else unicode(str(a.src))) == s, 'content src', a.src, s)
    for n, a in ((u'updated', e.Updated), (u'published', getattr(e, 'Published', None))):
        k = kids(x, n)
        m.check((a is None) == (not k), kind + ' ' + n, a, k)
        if k:
            m.check(near(tp_fields(a.GetValue()), str_fields(flat(k[0]))), 'date', unicode(a.GetValue()), flat(k[0]))
            m.count('dates')
    for n, l in ((u'author', e.Author), (u'contributor', e.Contributor)):
        k = kids(x, n)
        m.require(len(k) == len(l), kind + ' ' + n, len(l), len(k))
        for a, b in zip(l, k):
            look_person(m, a, b)
    k = kids(x, u'link')
    m.require(len(k) == len(e.Link), kind + ' links', len(e.Link), len(k))
    for a, b in zip(e.Link, k):
        look(m, a, b, 'link')
        g = dict((n, getattr(a, n)) for n in ('href', 'rel', 'type', 'hreflang', 'title', 'length'))
        w = dict((n, b[2].get((None, unicode(n)))) for n in g)
        g['href'] = unicode(str(g['href']))
        if w['length'] is not None:
            w['length'] = int(w['length'])
        m.check(g == w, 'link', g, w)
        m.count('links')
    k = kids(x, u'category')
    m.require(len(k) == len(e.Category), kind + ' categories')
    for a, b in zip(e.Category, k):
        look(m, a, b, 'category')
        m.check([getattr(a, n) for n in ('term', 'scheme', 'label')] == [b[2].get((None, n)) for n in (u'term', u'scheme', u'label')], 'category', b)
    if kind != 'entry':
        k = kids(x, u'generator')
        m.check((e.Generator is None) == (not k), 'generator')
        if k:
            u = k[0][2].get((None, u'uri'))
            m.check(same(e.Generator.GetValue(), flat(k[0])) and e.Generator.version == k[0][2].get((None, u'version')) and (None if e.Generator.uri is None else unicode(str(e.Generator.uri))) == u, 'generator', k)
        for n, a in ((u'icon', e.Icon), (u'logo', e.Logo)):
            k = kids(x, n)
            m.check((a is None) == (not k) and (not k or isinstance(a.GetValue(), uri.URI) and unicode(str(a.GetValue())) == flat(k[0])), n, k)
    if kind == 'feed':
        k = kids(x, u'entry')
        m.require(len(k) == len(e.Entry), 'entries', len(e.Entry), len(k))
        for a, b in zip(e.Entry, k):
            look_entity(m, a, b, 'entry')
    if kind == 'entry':
        k = kids(x, u'source')
        m.check((e.Source is None) == (not k), 'source')
        if k:
            look_entity(m, e.Source, k[0], 'source')
    m.count(kind + 's')


def near(a, b):
    return a[:5] == b[:5] and a[6] == b[6] and abs(a[5] - b[5]) < 1e-6


def load(cls, s, base='http://www.example.com/feed.atom'):
    d = cls(baseURI=base)
    d.Read(src=StringIO.StringIO(s.encode('utf-8')))
    return d


def fam_doc(m, r):
    x = entity(r, r.choice([u'feed', u'feed', u'entry']))
    src = u'<?xml version="1.0" encoding="utf-8"?>\n' + out(r, x, {})
    m.key(src)
    cls = r.choice([atom.AtomDocument, app.Document])
    d = load(cls, src)
    m.check(isinstance(d.root, atom.Feed if x[1] == u'feed' else atom.Entry), 'root', d.root)
    m.sample(src[:2000])
    want = canon_model(x)
    m.require(diff(jdom(src), want) is None, 'harness', diff(jdom(src), want), src)
    look_entity(m, d.root, x, str(x[1]))
    s = unicode(d)
    got = jdom(s)
    m.check(diff(soft(got), soft(want)) is None, 'written', diff(soft(got), soft(want)), src, s)
    d2 = load(cls, s)
    m.check(d2.root == d.root, 'reloaded', src, s)
    SOFT[0] = True
    try:
        look_entity(m, d2.root, x, str(x[1]))
    finally:
        SOFT[0] = False
    # a copy is the same
    c = d.root.Copy()
    g = jdom(unicode(c))
    m.check(diff(soft(g), soft(want)) is None, 'copied', diff(soft(g), soft(want)), src)
    m.count('documents')


# --- text constructs set by program -------------------------------------------

def markup(r, nodes, ent=True):
    s = u''
    for c in nodes:
        if isinstance(c, tuple):
            s += u'<%s%s>%s</%s>' % (c[1], u''.join(u' %s="%s"' % (k[1], esc(v, True)) for k, v in sorted(c[2].items())), markup(r, c[3]), c[1])
        else:
            s += esc(c)
    return s


def squash(nodes):
    """html strings: words only (the HTML parser owns the space)"""
    o = []
    for c in nodes:
        if isinstance(c, tuple):
            o.append((c[0], c[1], c[2], squash(c[3])))
        else:
            o.append(u' '.join(c.split()) or u'.')
    return o


def inline(r, d):
    """balanced inline content that HTML allows anywhere"""
    o = []
    for i in range(r.choice([1, 2, 3])):
        if d and (not o or not isinstance(o[-1], tuple)) and r.random() < .6:
            o.append((XH, r.choice([u'em', u'b', u'i', u'span']), {(None, u'class'): u'c'} if r.random() < .3 else {}, inline(r, d - 1)))
        elif o and not isinstance(o[-1], tuple):
            pass
        else:
            o.append(r.choice([u'word', u'a & b', u'1 < 2', u'x > y', u'\xe9', u'"q"', u'&amp;', u'<b>']))
    return o


def fam_text(m, r):
    cl = r.choice([atom.Title, atom.Summary, atom.Rights, atom.Content, atom.Subtitle])
    d = atom.AtomDocument(root=atom.Feed, baseURI='http://www.example.com/')
    e = cl(d.root if r.random() < .5 else None)
    hist = []
    for i in range(r.randint(1, 5)):
        t = r.choice(['text', 'html', 'xhtml', 'bad', 'none'])
        if t in ('text', 'html'):
            v = text(r)
            hist.append((t, v))
            e.SetValue(v, getattr(TT, t)) if t != 'text' or r.random() < .5 else e.SetValue(v)
            m.check(e.type == getattr(TT, t), 'set type', hist, e.type)
            m.eq(e.GetValue(), v, 'set value', hist)
            w = (v,) if v else ()
        elif t == 'none':
            hist.append((t,))
            e.SetValue(None)
            m.check(e.type == TT.text and e.GetValue() == u'', 'cleared', hist)
            w = ()
            t = 'text'
        elif t == 'bad':
            before = (e.type, unicode(e))
            m.raises((ValueError,), 'bad type', e.SetValue, u'x', r.choice(['rtf', 99, 'application/xml']))
            m.check((e.type, unicode(e)) == before, 'changed by a bad type', hist)
            continue
        else:
            nodes = inline(r, 2)
            src = markup(r, nodes)
            k = r.choice(['bare', 'div', 'p', 'divs'])
            if k == 'div':
                src = u'<div>%s</div>' % src
            elif k == 'p':
                src = u'<p>%s</p>' % src
                nodes = [(XH, u'p', {}, nodes)]
            elif k == 'divs':
                # a div with something after it (or before it) is not the div that encloses the content
                nodes = [(XH, u'div', {}, nodes)]
                for j in range(r.randint(1, 2)):
                    nodes.insert(r.choice([0, len(nodes), len(nodes)]), (XH, r.choice([u'div', u'p']), {}, inline(r, 1)))
                src = markup(r, nodes)
            hist.append((t, k, src))
            e.SetValue(src, TT.xhtml)
            m.check(e.type == TT.xhtml, 'set type', hist, e.type)
            check_markup(m, e.GetValue(), nodes, 'set xhtml')
            w = (canon_model((XH, u'div', {}, nodes)),)
            # the value can be given back
            v = e.GetValue()
            f = cl(None)
            f.SetValue(v, TT.xhtml)
            m.eq(f.GetValue(), v, 'xhtml value again', hist)
        s = unicode(e)
        g = jdom(s)
        if g[0] is None:
            g = (ATOM,) + g[1:]
        x = canon(ATOM, e.xmlname, {(None, u'type'): unicode(t)}, w)
        m.check(diff(soft(g), soft(x)) is None, 'set and written', diff(soft(g), soft(x)), hist, s)
        m.count('set_' + t)
    m.key(tuple(hist))


def fam_date(m, r):
    s = date(r)
    m.key(s)
    cl = r.choice([atom.Updated, atom.Published])
    e = cl(None)
    tp = iso8601.TimePoint.FromString(s)
    if r.random() < .5:
        e.SetValue(tp)
        m.check(e.GetValue() == tp, 'date set', s)
        w = str_fields(s)
        txt = xml.Element.GetValue(e)
        m.check(re.match(r'\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d(\.\d+)?(Z|[+-]\d\d:\d\d)\Z', txt) is not None, 'not rfc3339', txt, s)
        g = str_fields(txt)
        m.check(g[:5] == w[:5] and int(g[5]) == int(w[5]) and g[6] == w[6], 'date text', txt, s)
    else:
        e.SetValue(s)
        m.check(near(tp_fields(e.GetValue()), str_fields(s)), 'date read', s)
        m.eq(xml.Element.GetValue(e), s, 'date text kept')
    bad = r.choice([u'yesterday', u'2003-13-01T00:00:00Z', u'2003-12-32T00:00:00Z', u'2003-12-13T25:00:00Z', u'13/12/2003', u'2003-12-13T18:60:00Z', u''])
    m.raises((ValueError,), 'bad date', e.SetValue, bad)
    i = r.choice([atom.Icon, atom.Logo])(None)
    u = r.choice(URIS)
    i.SetValue(uri.URIFactory.URI(str(u)) if r.random() < .5 else u)
    m.check(str(i.GetValue()) == u and isinstance(i.GetValue(), uri.URI) and xml.Element.GetValue(i) == u, 'icon', u)
    m.count('date_values')


def fam_new(m, r):
    """new feeds and entries are complete, reset ones are empty"""
    lo = java.time.Instant.now().getEpochSecond() - 1
    d = atom.AtomDocument(root=r.choice([atom.Feed, atom.Entry]), baseURI='http://x/')
    hi = java.time.Instant.now().getEpochSecond() + 1
    e = d.root
    t = java.time.OffsetDateTime.parse(xml.Element.GetValue(e.Updated)).toEpochSecond()
    m.check(lo <= t <= hi, 'updated now', t, lo, hi)
    m.check([c.xmlname for c in e.GetChildren()][:3] == ['id', 'title', 'updated'], 'new children', [c.xmlname for c in e.GetChildren()])
    s = unicode(d)
    g = jdom(s)
    m.check(sorted(c[1] for c in g[3] if isinstance(c, tuple)) == [u'id', u'title', u'updated'], 'new document', s)
    x = entity(r, u'feed' if isinstance(e, atom.Feed) else u'entry')
    src = out(r, x, {})
    m.key(src)
    d = load(atom.AtomDocument, src)
    e = d.root
    old = [c for c in e.GetChildren() if not isinstance(c, basestring)]
    keep = [id(c) for c in (e.AtomId,)]
    e.Reset()
    for n in ('Author', 'Category', 'Contributor', 'Link', 'Entry'):
        if hasattr(e, n) and n != 'Entry':
            m.check(getattr(e, n) == [], 'reset ' + n, getattr(e, n))
    for n in ('Rights', 'Content', 'Published', 'Source', 'Summary', 'Generator', 'Icon', 'Logo', 'Subtitle'):
        if hasattr(e, n) and (isinstance(e, atom.Entry) or n == 'Rights'):
            m.check(getattr(e, n) is None, 'reset ' + n, getattr(e, n))
    now = [c for c in e.GetChildren() if not isinstance(c, basestring)]
    for c in old:
        if not any(c is k for k in now):
            m.check(c.parent is None, 'reset child keeps its parent', c.xmlname)
    if isinstance(e, atom.Entry):
        m.check([c.xmlname for c in now] == ['id', 'title', 'updated'], 'reset entry', [c.xmlname for c in now])
        m.check(e.AtomId.GetValue() == u'' and e.Title.GetValue() == u'', 'reset values', src)
        g = jdom(unicode(e))
        m.check(sorted(c[1] for c in g[3] if isinstance(c, tuple)) == [u'id', u'title', u'updated'], 'reset written', g)
        m.count('resets')
    gen = atom.Generator(None)
    gen.SetPysletInfo()
    m.check(gen.uri is not None and gen.version and gen.GetValue(), 'pyslet generator')


# --- publishing protocol ----------------------------------------------------------

def categories(r, inline=True):
    at = {}
    if r.random() < .3:
        at[(None, u'scheme')] = r.choice(URIS)
    if r.random() < .25:
        at[(None, u'href')] = r.choice(URIS)
        return (APP, u'categories', common(r, {(None, u'href'): at[(None, u'href')]}), [])
    if r.random() < .5:
        at[(None, u'fixed')] = r.choice([u'yes', u'no'])
    return (APP, u'categories', common(r, at), some(r, category))


def service(r):
    ws = []
    for i in range(r.randint(1, 3)):
        cs = [textcon(r, u'title')]
        for j in range(r.randint(0, 3)):
            ch = [textcon(r, u'title')] + [(APP, u'accept', {}, [r.choice([u'image/png', u'application/atom+xml;type=entry', u'*/*'])]) for k in range(r.choice([0, 1, 2]))] + [categories(r) for k in range(r.choice([0, 0, 1, 2]))]
            ch += [foreign(r)] if r.random() < .2 else []
            r.shuffle(ch)
            cs.append((APP, u'collection', common(r, {(None, u'href'): r.choice(URIS)}), ch))
        if r.random() < .2:
            cs.append(foreign(r))
        r.shuffle(cs)
        ws.append((APP, u'workspace', common(r, {}), cs))
    return (APP, u'service', common(r, {}), ws + ([foreign(r)] if r.random() < .2 else []))


def look_categories(m, e, x):
    look(m, e, x, 'categories')
    f = x[2].get((None, u'fixed'))
    m.check(e.fixed == (None if f is None else f == u'yes') and e.scheme == x[2].get((None, u'scheme')) and (None if e.href is None else unicode(str(e.href))) == x[2].get((None, u'href')), 'categories', e.fixed, e.scheme, e.href, x[2])
    k = kids(x, u'category')
    m.require(len(k) == len(e.Category), 'category list', len(e.Category), len(k))
    for a, b in zip(e.Category, k):
        m.check([getattr(a, n) for n in ('term', 'scheme', 'label')] == [b[2].get((None, n)) for n in (u'term', u'scheme', u'label')], 'category', b)


def fam_app(m, r):
    if r.random() < .2:
        x = categories(r)
    else:
        x = service(r)
    src = u'<?xml version="1.0" encoding="utf-8"?>\n' + out(r, x, {})
    m.key(src)
    base = 'http://www.example.com/svc/doc'
    d = load(app.Document, src, base)
    if x[1] == u'categories':
        look_categories(m, d.root, x)
    else:
        m.require(len(d.root.Workspace) == len(kids(x, u'workspace', APP)), 'workspaces')
        for w, wx in zip(d.root.Workspace, kids(x, u'workspace', APP)):
            look_text(m, w.Title, kids(wx, u'title')[0])
            cs = kids(wx, u'collection', APP)
            m.require(len(w.Collection) == len(cs), 'collections')
            for c, cx in zip(w.Collection, cs):
                look(m, c, cx, 'collection')
                look_text(m, c.Title, kids(cx, u'title')[0])
                m.check(unicode(str(c.href)) == cx[2][(None, u'href')], 'collection href')
                b = base
                for t in (x, wx, cx):
                    if (XML, u'base') in t[2]:
                        b = jresolve(b, t[2][(XML, u'base')])
                g = str(c.GetFeedURL())
                if not str(c.href).startswith('?'):
                    m.check(g == jresolve(b, str(c.href)), 'feed url', g, jresolve(b, str(c.href)), src)
                m.check([a.GetValue() for a in c.Accept] == [flat(k) for k in kids(cx, u'accept', APP)], 'accept')
                ks = kids(cx, u'categories', APP)
                m.require(len(ks) == len(c.Categories), 'categories count')
                for a, k in zip(c.Categories, ks):
                    look_categories(m, a, k)
                m.count('collections')
    want = canon_model(x)
    s = unicode(d)
    got = jdom(s)
    m.check(diff(soft(got), soft(want)) is None, 'written', diff(soft(got), soft(want)), src, s)
    m.check(load(app.Document, s, base).root == d.root, 'reloaded', src, s)
    m.count('app_documents')


def jresolve(base, ref):
    from java.net import URI
    return URI(base).resolve(URI(ref)).toString()


class Source(object):
    """A wsgi.input that records what is asked of it"""

    def __init__(self, data, r, limit):
        self.data, self.pos, self.r, self.limit, self.over = data, 0, r, limit, None

    def read(self, n=-1):
        if n < 0 or self.limit is not None and self.pos + n > self.limit:
            self.over = (self.pos, n)
        if n < 0:
            n = len(self.data) - self.pos
        if self.r.random() < .3 and n > 1:
            n = self.r.randint(1, n)
        s = self.data[self.pos:self.pos + n]
        self.pos += len(s)
        return s


def fam_input(m, r):
    n = r.choice([0, 1, 7, 50, 200, 1000]) + r.randint(0, 20)
    if r.random() < .1:
        n = r.randint(8000, 20000)
    data = ''.join(r.choice('abc\n\r\x00\xff' if r.random() < .3 else 'xyz') for i in range(n))
    k = r.choice(['exact', 'exact', 'none', 'short', 'more', 'empty'])
    env = {}
    lim = None
    src = data
    if k == 'exact':
        lim = n
    elif k == 'more':
        # the client stays connected: more bytes follow this request's body
        lim = n
        src = data + 'NEXT REQUEST'
    elif k == 'short':
        lim = n + r.randint(1, 20)
    elif k == 'empty':
        env['CONTENT_LENGTH'] = ''
    if lim is not None:
        env['CONTENT_LENGTH'] = str(lim)
    inp = Source(src, r, lim)
    env['wsgi.input'] = inp
    args = [] if r.random() < .3 else [r.choice([0, 1, 10, 100, 512, 100000])]
    seeksize = args[0] if args else io.DEFAULT_BUFFER_SIZE
    w = app.InputWrapper(env, *args)
    buf = min(seeksize, n if lim is None else min(n, lim))
    if n < seeksize:
        buf = n
    pos = 0
    log = [(k, n, seeksize)]
    for i in range(r.randint(1, 14)):
        op = r.choice(['read', 'read', 'readn', 'readn', 'readline', 'readlinen', 'readlines', 'iter', 'blocks', 'into', 'seek', 'seek', 'seek', 'tell', 'all'])
        rest = data[pos:]
        if op in ('read', 'readn'):
            c = r.choice([0, 1, 2, 5, 30, 500, 9000])
            got = w.read(c)
            log.append(('read', c, len(got)))
            m.check(rest.startswith(got) and len(got) <= c and (got or not c or not rest), 'read', log, got[:60], rest[:60])
            pos += len(got)
        elif op == 'all' and r.random() < .4:
            got = w.read() if r.random() < .5 else w.readall()
            log.append(('all', len(got)))
            m.check(got == rest, 'read all', log, len(got), len(rest))
            pos += len(got)
        elif op in ('readline', 'readlinen'):
            lim2 = -1 if op == 'readline' else r.choice([0, 1, 3, 10])
            s = StringIO.StringIO(rest)
            want = rest[:rest.find('\n') + 1] if '\n' in rest else rest
            if lim2 >= 0:
                want = want[:lim2]
            got = w.readline(lim2) if op == 'readlinen' else w.readline()
            log.append((op, lim2, len(got)))
            m.check(got == want, 'readline', log, got[:60], want[:60])
            pos += len(got)
        elif op == 'readlines':
            h = r.choice([-1, 0, 5, 50])
            got = bounded(m, lambda: iter(w.readlines(h)), len(rest) + 2)
            want = []
            t = 0
            for l in lines(rest):
                want.append(l)
                t += len(l)
                if h >= 0 and t > h:
                    break
            log.append((op, h, len(got)))
            m.check(got == want, 'readlines', log, len(got), len(want))
            pos += sum(map(len, got))
        elif op == 'iter':
            stop = r.choice([1, 2, 99999])
            got = []
            for l in w:
                got.append(l)
                if len(got) >= stop or len(got) > len(rest) + 2:
                    break
            log.append((op, stop, len(got)))
            m.check(got == lines(rest)[:stop], 'iteration', log, got[:5], lines(rest)[:5])
            pos += sum(map(len, got))
        elif op == 'blocks':
            z = r.choice([1, 7, 100, 8192, 20000])
            got = list(w.iterblocks(z)) if r.random() < .7 else list(w.iterblocks())
            log.append((op, z, len(got)))
            m.check(''.join(got) == rest, 'blocks', log, len(''.join(got)), len(rest))
            pos += len(rest)
        elif op == 'into':
            c = r.choice([0, 1, 5, 40])
            b = bytearray(c)
            g = w.readinto(b)
            log.append((op, c, g))
            m.check(str(b[:g]) == rest[:g] and g <= c and (g or not c or not rest), 'readinto', log)
            pos += g
        elif op == 'tell':
            m.check(w.tell() == pos, 'tell', log, w.tell(), pos)
            ok = pos <= buf
            m.check(w.seekable() == ok, 'seekable', log, w.seekable(), pos, buf)
        elif op == 'seek':
            wh = r.choice([0, 0, 0, 1, 2])
            to = r.choice([0, r.randint(0, n), r.randint(0, max(buf, 1)), n, buf, buf + 1])
            off = to if wh == 0 else to - pos if wh == 1 else to - (lim or 0)
            if r.random() < .06:
                off, wh = r.choice([(-1, 0), (-pos - 1, 1), (0, 7)])
            log.append((op, off, wh))
            if pos > buf or wh == 7 or wh == 2 and lim is None or (off if wh == 0 else pos + off if wh == 1 else lim + off) < 0:
                m.raises((IOError,), 'seek allowed', w.seek, off, wh)
                continue
            to = off if wh == 0 else pos + off if wh == 1 else lim + off
            if to > n:
                continue
            w.seek(off, wh)
            m.check(w.tell() == to, 'seek', log, w.tell(), to)
            pos = to
            m.count('seeks')
        m.check(inp.over is None or lim is None, 'read past the request body', log, inp.over, lim)
        m.check(w.tell() == pos, 'position', log, w.tell(), pos)
        m.count('input_ops')
    m.key((tuple(log), data[:40]))
    m.check(w.readable() and not w.writable() and not w.isatty(), 'flags')
    m.raises((IOError,), 'write', w.write, 'x')
    m.raises((IOError,), 'writelines', w.writelines, ['x'])
    m.raises((IOError,), 'truncate', w.truncate)
    m.raises((IOError,), 'fileno', w.fileno)
    w.close()
    m.raises((IOError, ValueError), 'read when closed', w.read, 1)


def lines(s):
    out = s.split('\n')
    return [l + '\n' for l in out[:-1]] + ([out[-1]] if out[-1] else [])


def bounded(m, f, n):
    return list(f())


def fam_server(m, r):
    root = r.choice(['http://localhost/', 'http://localhost/svc/', 'HTTP://LocalHost:80/a/b', 'http://h:8080/svc'])
    s = app.Server(root) if r.random() < .5 else app.Server(uri.URIFactory.URI(root))
    for i in range(r.randint(0, 3)):
        w = s.service.ChildElement(app.Workspace)
        w.ChildElement(atom.Title).SetValue(text(r))
        for j in range(r.randint(0, 2)):
            c = w.ChildElement(app.Collection)
            c.href = uri.URIFactory.URI(str(r.choice(URIS)))
            c.ChildElement(atom.Title).SetValue(text(r))
    path = re.sub('^[a-zA-Z]+://[^/]*', '', root)
    script, info = r.choice([('', path), (path.rstrip('/'), path[len(path.rstrip('/')):]), ('', '/other'), ('', path + 'x'), ('/nope', path), ('', '')])
    m.key((root, script, info, unicode(s.serviceDoc)))
    got = []
    data = ''.join(s({'SCRIPT_NAME': script, 'PATH_INFO': info, 'REQUEST_METHOD': 'GET'}, lambda st, h, e=None: got.append((st, h))))
    m.check(len(got) == 1, 'start_response', got)
    st, h = got[0]
    h = dict((k.lower(), v) for k, v in h)
    m.check(int(h['content-length']) == len(data), 'content length', h, len(data))
    hit = script + info == path
    m.check(st[:3] == ('200' if hit else '404'), 'status', st, root, script, info)
    if hit:
        m.check(h['content-type'] == 'application/atomsvc+xml', 'content type', h)
        g = jdom(data.decode('utf-8'))
        w = jdom(unicode(s.serviceDoc))
        m.check(g == w, 'service document', g)
        b = dict(g[2]).get((XML, u'base'))
        m.check(b is not None and b.lower().replace(':80/', '/') == root.lower().replace(':80/', '/'), 'service base', b, root)
        m.count('served')
    else:
        m.count('missing')


FAMILIES = [
    Family('doc', fam_doc, 600, 16000),
    Family('text', fam_text, 900, 16000),
    Family('date', fam_date, 1200, 20000),
    Family('new', fam_new, 500, 6000),
    Family('app', fam_app, 350, 8000),
    Family('input', fam_input, 1500, 30000),
    Family('server', fam_server, 300, 3000),
]
