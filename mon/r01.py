# -*- coding: utf-8 -*-
"""R01 HTML, whatever its tags look like, parses to a valid tree with all of its content"""

import os
import re
import htmlentitydefs
from lib import Family
import pyslet.html40_19991224 as html
import pyslet.xml20081126.structures as xml
import pyslet.xmlnames20091208 as xmlns
import java.lang

PROPERTY = 'R01'
DEBUG = os.environ.get('R01_DEBUG')
NS = html.XHTML_NAMESPACE
S = u' \t\r\n'

# ---- the content model of the specification (loose, frames left out) ----------
FONTSTYLE = 'tt i b u s strike big small'.split()
PHRASE = 'em strong dfn code samp kbd var cite abbr acronym'.split()
PLAIN = FONTSTYLE + PHRASE + 'sub sup span'.split()
SPECIAL = 'a img object font basefont br script map q sub sup span bdo iframe'.split()
FORMCTRL = 'input select textarea label button'.split()
INLINE = set(FONTSTYLE + PHRASE + SPECIAL + FORMCTRL + ['ins', 'del'])
HEADING = 'h1 h2 h3 h4 h5 h6'.split()
BLOCK = set('p ul ol pre dl div center noscript blockquote form hr table fieldset address'.split() + HEADING)
FLOW = INLINE | BLOCK
TEXT = set(['#'])
MODEL = {'html': set(['head', 'body']),
         'head': set('title base meta link style script object noscript'.split()),
         'title': TEXT, 'style': TEXT, 'script': TEXT, 'option': TEXT, 'textarea': TEXT,
         'body': BLOCK | set(['script', 'ins', 'del']),
         'address': INLINE | TEXT | set(['p']),
         'blockquote': BLOCK | set(['script', 'ins', 'del']), 'form': BLOCK | set(['script', 'ins', 'del']),
         'map': BLOCK | set(['area', 'ins', 'del']),
         'ul': set(['li']), 'ol': set(['li']), 'dl': set(['dt', 'dd']),
         'select': set(['option', 'optgroup']), 'optgroup': set(['option']),
         'fieldset': FLOW | TEXT | set(['legend']), 'object': FLOW | TEXT | set(['param']),
         'table': set('caption col colgroup thead tfoot tbody'.split()), 'colgroup': set(['col']),
         'thead': set(['tr']), 'tfoot': set(['tr']), 'tbody': set(['tr']), 'tr': set(['td', 'th'])}
for _n in FONTSTYLE + PHRASE + HEADING + 'a q sub sup span bdo font p pre dt label legend caption'.split():
    MODEL[_n] = INLINE | TEXT
for _n in 'div center noscript li dd th td button iframe ins del'.split():
    MODEL[_n] = FLOW | TEXT
EMPTY = set('base meta link hr br img input param area col basefont isindex frame'.split())
for _n in EMPTY:
    MODEL[_n] = set()
KEEP = set('pre textarea script style'.split())
KNOWN = set(MODEL)


# ---- trees --------------------------------------------------------------------
# an element is [name, attributes, children], text is unicode

def observe(e):
    kids = []
    for c in e.GetChildren():
        if isinstance(c, basestring):
            if kids and isinstance(kids[-1], basestring):
                kids[-1] = kids[-1] + unicode(c)
            else:
                kids.append(unicode(c))
        else:
            kids.append(observe(c))
    at = {}
    for k, v in e.GetAttributes().items():
        at[k if isinstance(k, basestring) else k[1] if k[0] in (None, xmlns.NO_NAMESPACE) else u'{%s}%s' % k] = unicode(v)
    return [unicode(e.xmlname), at, kids]


def fold(t):
    out = []
    for c in t:
        if c in S:
            if not out or out[-1] != u' ':
                out.append(u' ')
        else:
            out.append(c)
    return u''.join(out)


def norm(n, keep=False):
    """White space folded; that at the edges of elements and next to blocks dropped"""
    name, at, kids = n
    keep = (keep or name in KEEP) and name != 'option'
    out = []
    for c in kids:
        if not isinstance(c, basestring):
            out.append(norm(c, keep))
        elif keep:
            out.append(c)
        elif c:
            out.append(fold(c))
    if not keep:
        def block(i):
            return i < 0 or i >= len(out) or (not isinstance(out[i], basestring) and out[i][0] not in INLINE)
        for i, c in enumerate(out):
            if isinstance(c, basestring):
                if block(i - 1):
                    c = c.lstrip(S)
                if block(i + 1):
                    c = c.rstrip(S)
                out[i] = c
    return [name, at, [c for c in out if c != u'']]


DEFAULTS = {'form': {'enctype': 'application/x-www-form-urlencoded', 'method': 'GET'}, 'input': {'type': 'text'},
            'button': {'type': 'submit'}, 'style': {'type': 'text/css'}, 'img': {'alt': ''}, 'area': {'alt': ''},
            'map': {'name': ''}, 'basefont': {'size': ''}, 'optgroup': {'label': ''}}


def show(n):
    if isinstance(n, basestring):
        return repr(n)[1:] if isinstance(n, unicode) else repr(n)
    at = dict(DEFAULTS.get(n[0], {}))
    at.update(n[1])
    return u'%s%s(%s)' % (n[0], ''.join('[%s=%s]' % (k, repr(unicode(v))[1:]) for k, v in sorted(at.items()) if v),
                          u', '.join(show(c) for c in n[2]))


def size(n):
    return 1 if isinstance(n, basestring) else 1 + sum(size(c) for c in n[2])


def valid(m, n, ctx, mech='valid'):
    name, at, kids = n
    model = MODEL.get(name)
    for c in kids:
        k = '#' if isinstance(c, basestring) else c[0]
        if k == '#' and not c.strip(S):
            continue
        if model is not None and (k == '#' or k in KNOWN):
            m.check(k in model, mech, '%s inside %s' % (k, name), ctx, show(n)[:600])
            m.count('contained')
        elif model is not None and k != '#' and k.lower() in KNOWN:
            m.check(False, mech, 'name not folded: %s' % k, ctx)
        if k != '#':
            valid(m, c, ctx, mech)
    if name == 'html':
        m.check([c[0] for c in kids] == ['head', 'body'], mech, 'html', [c[0] for c in kids], ctx)


def text_of(n):
    return n if isinstance(n, basestring) else u''.join(text_of(c) for c in n[2])


def preorder(n, out):
    if not isinstance(n, basestring):
        out.append(n[0])
        for c in n[2]:
            preorder(c, out)
    return out


def parse(src):
    d = html.XHTMLDocument()
    d.Read(src=xml.XMLEntity(src))
    return d


def round_trip(m, d, obs, ctx):
    try:
        out = unicode(d)
        again = observe(parse(out).root)
    except (Exception, java.lang.Throwable), e:
        m.violate('write', u'%s %s: %s' % (type(e), e, ctx))
        return
    m.eq(show(norm(again)), show(norm(obs)), 'write', ctx, out[:1500])
    try:
        text = d.root.RenderText()
    except (Exception, java.lang.Throwable), e:
        m.violate('rendertext', u'%s %s: %s' % (type(e), e, ctx))
        return
    m.eq(u''.join(text.split()), u''.join(text_of(obs).split()), 'rendertext', ctx)
    m.count('round_trips')


# ---- documents ----------------------------------------------------------------
WORDS = [u'alpha', u'be ta', u'x', u'caf\xe9', u'a<b', u'R&D', u'q "z"', u"it's", u'\u20ac5', u'a  b', u'1\n2', u'a\xa0b',
         u'&amp;', u'<!--', u'</p>', u'a > b', u']]', u'\u03b1\u03b2', u'&lt', u'\u2014', u'50%', u'&nosuch;', u'-->']
URLS = [u'x.htm', u'http://www.example.com/a?b=1&c=2', u'../i/m.png', u'#top', u'mailto:a@b.example', u'/a/b/',
        u'x?copy=1&lt=2&zz=3', u'http://h:80/%7Eq']


class Gen(object):
    def __init__(self, r):
        self.r = r
        self.left = r.choice([8, 15, 30, 60])
        self.ids = 0

    def text(self):
        r = self.r
        t = u' '.join(r.choice(WORDS) for i in range(r.randint(1, 3)))
        if r.random() < 0.3:
            t = r.choice([u' ', u'\n', u'  ']) + t
        if r.random() < 0.3:
            t += u' '
        return t

    def attrs(self, name):
        r = self.r
        at = {}
        if r.random() < 0.3:
            at['class'] = r.choice([u'c1', u'c1 c2', u'a-b'])
        if r.random() < 0.15:
            at['title'] = r.choice([u'T', u'a "q" b', u"it's", u'x & y', u'a<b>c', u'\xe9t\xe9', u'a=b'])
        if name not in ('br', 'basefont', 'img', 'param') and r.random() < 0.1:
            at['lang'] = r.choice([u'en', u'fr-CA'])
        if r.random() < 0.1 and name not in ('html', 'head', 'title', 'meta', 'base', 'style', 'script', 'param'):
            self.ids += 1
            at['id'] = u'i%d' % self.ids
        if r.random() < 0.1 and name in ('p', 'div', 'b', 'span', 'bdo', 'a', 'body', 'form', 'td', 'li'):
            at['dir'] = r.choice([u'ltr', u'rtl'])
        if r.random() < 0.1 and name in ('p', 'div', 'b', 'a', 'input', 'body', 'h1', 'select'):
            at['onclick'] = r.choice([u'f()', u"g('x')", u'if (a<b && c>d) h("z")'])

        def some(p, k, vals):
            if r.random() < p:
                at[k] = r.choice(vals)
        if name in ('a', 'link'):
            some(0.7, 'href', URLS)
            some(0.3, 'rel', [u'stylesheet', u'next prev', u'nofollow'])
        if name == 'a':
            some(0.2, 'tabindex', [u'1', u'30'])
            some(0.2, 'name', [u'top', u'a.b'])
            some(0.1, 'accesskey', [u'x'])
            some(0.1, 'target', [u'_top'])
        elif name == 'img':
            at['src'] = r.choice(URLS)
            some(0.7, 'alt', [u'A', u'a b', u''])
            for k in ('height', 'width'):
                some(0.3, k, [u'20', u'50%'])
            for k in ('border', 'hspace', 'vspace'):
                some(0.3, k, [u'0', u'1', u'22'])
            some(0.3, 'align', 'top middle bottom left right'.split())
            some(0.2, 'ismap', [u'ismap'])
            some(0.1, 'usemap', [u'#m'])
        elif name == 'input':
            some(0.7, 'type', 'text password checkbox radio submit reset file hidden image button'.split())
            some(0.7, 'name', [u'q', u'a.b'])
            some(0.4, 'value', [u'1', u'a b', u'<&>', u'"'])
            for k in ('checked', 'disabled', 'readonly'):
                some(0.25, k, [k])
            some(0.2, 'maxlength', [u'10'])
            some(0.2, 'tabindex', [u'3'])
        elif name == 'option':
            some(0.3, 'value', [u'1', u'a b'])
            some(0.3, 'selected', [u'selected'])
        elif name == 'optgroup':
            at['label'] = r.choice([u'L', u'a & b'])
        elif name == 'select':
            some(0.5, 'name', [u's'])
            some(0.3, 'multiple', [u'multiple'])
            some(0.2, 'size', [u'3'])
        elif name == 'textarea':
            at['rows'], at['cols'] = u'2', u'40'
        elif name == 'button':
            some(0.5, 'type', 'button submit reset'.split())
            some(0.5, 'value', [u'v'])
            some(0.2, 'disabled', [u'disabled'])
        elif name == 'form':
            at['action'] = r.choice(URLS)
            some(0.5, 'method', [u'GET', u'POST'])
            some(0.2, 'enctype', [u'multipart/form-data'])
        elif name in ('font', 'basefont'):
            some(0.5, 'color', [u'#FF0010', u'#00A0FF'])
            some(0.5, 'size', [u'+1', u'4', u'-2'])
        elif name == 'body':
            for k in ('bgcolor', 'text', 'link', 'vlink', 'alink'):
                some(0.2, k, [u'#FFFFFF', u'#0A0B0C', u'#C0C0C0'])
            some(0.1, 'background', URLS)
            some(0.1, 'onload', [u'f()'])
        elif name in ('td', 'th'):
            some(0.3, 'colspan', [u'2'])
            some(0.2, 'nowrap', [u'nowrap'])
            some(0.2, 'width', [u'10%'])
        elif name == 'table':
            some(0.3, 'border', [u'1'])
            some(0.2, 'width', [u'100%'])
        elif name in ('col', 'colgroup'):
            some(0.4, 'span', [u'2'])
        elif name == 'br':
            some(0.2, 'clear', 'left all right none'.split())
        elif name in ('ins', 'del'):
            some(0.3, 'cite', URLS)
            some(0.3, 'datetime', [u'1994-11-05T08:15:30-05:00', u'2010-01-01T00:00:00Z'])
        elif name == 'map':
            at['name'] = u'm'
        elif name == 'area':
            at['alt'] = r.choice([u'a', u'b c'])
            some(0.7, 'shape', 'rect circle poly default'.split())
            some(0.5, 'coords', [u'1,2,30,40', u'10%,20%,30'])
            some(0.5, 'href', URLS)
            some(0.2, 'nohref', [u'nohref'])
        elif name == 'object':
            some(0.5, 'data', URLS)
            some(0.2, 'declare', [u'declare'])
            for k in ('height', 'width'):
                some(0.3, k, [u'20', u'50%'])
        elif name == 'param':
            at['name'] = r.choice([u'p', u'q'])
            some(0.7, 'value', [u'1', u'a b'])
        elif name == 'label':
            some(0.5, 'for', [u'x'])
        elif name == 'meta':
            at['content'] = r.choice([u'text/html; charset=UTF-8', u'a, b', u'x'])
            some(0.5, 'name', [u'author', u'DC.title'])
            some(0.3, 'http-equiv', [u'Content-Type'])
        elif name == 'base':
            at['href'] = u'http://www.example.com/'
        elif name in ('style', 'script'):
            at['type'] = {'style': u'text/css', 'script': u'text/javascript'}[name]
            if name == 'script':
                some(0.2, 'src', URLS)
                some(0.2, 'defer', [u'defer'])
        elif name == 'bdo':
            at['dir'] = r.choice([u'ltr', u'rtl'])
        return at

    def el(self, name, kids=()):
        self.left -= 1
        return [name, self.attrs(name), list(kids)]

    def inline(self, depth, excl):
        """One piece of inline content"""
        r = self.r
        x = r.random()
        if depth <= 0 or self.left <= 0 or x < 0.5:
            return self.text()
        if x < 0.75:
            names = [n for n in PLAIN + ['q', 'bdo', 'font', 'a', 'label'] if n not in excl]
            n = r.choice(names)
            return self.el(n, self.inlines(depth - 1, excl | (set([n]) if n in ('a', 'label') else set())))
        n = r.choice([n for n in 'br br img object map input select textarea button iframe ins del script'.split()
                      if n not in excl] or ['br'])
        if n in ('br', 'img', 'input'):
            return self.el(n)
        if n == 'script':
            return self.el(n, [self.script()])
        if n in ('ins', 'del'):
            return self.el(n, self.inlines(depth - 1, excl))
        if n == 'object':
            return self.el(n, [self.el('param') for i in range(r.choice([0, 0, 1, 2]))] + self.inlines(depth - 1, excl))
        if n == 'map':
            return self.el(n, [self.el('area') for i in range(r.randint(1, 3))] if r.random() < 0.7
                           else self.blocks(depth - 1, excl))
        if n == 'select':
            return self.el(n, self.options(True))
        if n == 'textarea':
            return self.el(n, [r.choice([u'v', u' two\n lines ', u'a<b'])] if r.random() < 0.8 else [])
        if n == 'button':
            return self.el(n, self.flow(depth - 1, excl | set(['a', 'form', 'fieldset', 'map'] + FORMCTRL)))
        return self.el(n, self.flow(depth - 1, excl))

    def script(self):
        return self.r.choice([u'f()', u'if (a<b && c>d) {\n  x="<b>";\n}', u'// note\nf();', u'a ]]> b', u' z&amp; '])

    def options(self, groups):
        r = self.r
        out = []
        for i in range(r.randint(1, 3)):
            if groups and r.random() < 0.25:
                out.append(self.el('optgroup', self.options(False)))
            else:
                out.append(self.el('option', [self.text()] if r.random() < 0.9 else []))
        return out

    def inlines(self, depth, excl):
        out = []
        for i in range(self.r.choice([0, 1, 1, 2, 3])):
            c = self.inline(depth, excl)
            if isinstance(c, basestring) and out and isinstance(out[-1], basestring):
                continue
            out.append(c)
        return out

    def block(self, depth, excl):
        r = self.r
        if depth <= 0 or self.left <= 0:
            return self.el('p', self.inlines(0, excl))
        n = r.choice([n for n in ['p'] * 5 + ['ul', 'ol', 'dl', 'table', 'div'] * 2 +
                      'pre center noscript blockquote form hr fieldset address h1 h2 h3 h4 h5 h6'.split()
                      if n not in excl])
        if n == 'hr':
            return self.el(n)
        if n == 'pre':
            kids = self.inlines(depth - 1, excl | set('img object big small sub sup map button iframe ins del'.split()))
            if kids and isinstance(kids[0], basestring) and kids[0][:1] in '\r\n':
                kids[0] = u'x' + kids[0]
            return self.el(n, kids)
        if n in ('p',) or n in HEADING:
            return self.el(n, self.inlines(depth - 1, excl))
        if n in ('ul', 'ol'):
            return self.el(n, [self.el('li', self.flow(depth - 1, excl)) for i in range(r.randint(1, 3))])
        if n == 'dl':
            return self.el(n, [self.el('dt', self.inlines(depth - 1, excl)) if r.random() < 0.5
                               else self.el('dd', self.flow(depth - 1, excl)) for i in range(r.randint(1, 4))])
        if n == 'table':
            return self.table(depth, excl)
        if n in ('blockquote', 'form'):
            return self.el(n, self.blocks(depth - 1, excl | set([n] if n == 'form' else [])))
        if n == 'fieldset':
            return self.el(n, [self.el('legend', self.inlines(depth - 1, excl))] + self.flow(depth - 1, excl))
        if n == 'address':
            return self.el(n, self.inlines(depth - 1, excl) + [self.el('p', self.inlines(depth - 1, excl))
                                                               for i in range(r.choice([0, 0, 1]))])
        return self.el(n, self.flow(depth - 1, excl))

    def table(self, depth, excl):
        r = self.r

        def rows(cell):
            return [self.el('tr', [self.el(r.choice([cell, cell, 'th']), self.flow(depth - 2, excl))
                                   for i in range(r.randint(1, 3))]) for j in range(r.randint(1, 3))]
        kids = []
        if r.random() < 0.3:
            kids.append(self.el('caption', self.inlines(1, excl)))
        x = r.random()
        if x < 0.2:
            kids += [self.el('col') for i in range(r.randint(1, 3))]
        elif x < 0.4:
            kids += [self.el('colgroup', [self.el('col') for i in range(r.randint(0, 2))]) for i in range(r.randint(1, 2))]
        if r.random() < 0.3:
            kids.append(self.el('thead', rows('th')))
        if r.random() < 0.2:
            kids.append(self.el('tfoot', rows('td')))
        for i in range(r.choice([1, 1, 2])):
            kids.append(self.el('tbody', rows('td')))
        return self.el('table', kids)

    def blocks(self, depth, excl):
        r = self.r
        out = [self.block(depth, excl) for i in range(r.choice([1, 1, 2, 3]))]
        return out

    def flow(self, depth, excl):
        out = []
        for i in range(self.r.choice([0, 1, 1, 2, 3])):
            c = self.block(depth, excl) if depth > 0 and self.r.random() < 0.4 else self.inline(depth, excl)
            if isinstance(c, basestring) and out and isinstance(out[-1], basestring):
                continue
            out.append(c)
        return out

    def document(self):
        r = self.r
        misc = []
        for i in range(r.choice([0, 0, 1, 2, 3])):
            n = r.choice(['meta', 'link', 'style', 'script'])
            misc.append(self.el(n, [] if n in ('meta', 'link') else
                                [self.script() if n == 'script' else u'p > a { color: red }\n.x {}']))
        base = [self.el('base')] if r.random() < 0.2 else []
        title = self.el('title', [fold(self.text()).strip() or u'T'])
        kids = []
        for i in range(r.randint(1, 4)):
            x = r.random()
            if x < 0.1:
                kids.append(self.el('script', [self.script()]))
            elif x < 0.2:
                kids.append(self.el(r.choice(['ins', 'del']), self.flow(2, set())))
            else:
                kids.append(self.block(r.randint(1, 5), set()))
        self.head = misc + base
        self.head.insert(r.randint(0, len(self.head)), title)
        want = ['html', {}, [['head', {}, [title] + base + misc], ['body', self.attrs('body'), kids]]]
        return want


class Render(object):
    """Writes a tree as HTML with whatever may be left out left out at random"""

    def __init__(self, r, m, xmode=False):
        self.r, self.m, self.x = r, m, xmode
        self.case = 0 if xmode else r.choice([0, 1, 2, 2])
        self.omit = 0 if xmode else r.choice([0, 0.5, 1])
        self.unq = 0 if xmode else r.choice([0, 0.5, 1])
        self.ws = r.choice([0, 0, 0.5])
        self.noise = r.choice([0, 0, 0.1])
        self.out = []

    def name(self, n):
        if self.case == 1:
            return n.upper()
        if self.case == 2:
            return ''.join(self.r.choice([c.upper(), c]) for c in n)
        return n

    def esc(self, t, attr=None):
        r = self.r
        out = []
        for i, c in enumerate(t):
            nxt = t[i + 1] if i + 1 < len(t) else u''
            if c == u'&':
                if not self.x and r.random() < 0.3 and nxt and nxt in u' 1':
                    out.append(u'&')
                    self.m.count('bare_amp')
                else:
                    out.append(r.choice([u'&amp;', u'&#38;', u'&#x26;']))
            elif c == u'<':
                out.append(r.choice([u'&lt;', u'&#60;']))
            elif c == u'>':
                out.append(u'&gt;' if r.random() < 0.8 or attr or t[max(0, i - 2):i] == u']]' else u'>')
            elif c == u'"' and attr == u'"' or c == u"'" and attr == u"'":
                out.append(u'&quot;' if c == u'"' else u'&#39;')
            elif ord(c) > 126 and r.random() < 0.5:
                ent = htmlentitydefs.codepoint2name.get(ord(c))
                if ent and not self.x and r.random() < 0.6:
                    semi = u';'
                    if nxt == u' ' and r.random() < 0.3:
                        semi = u''
                    out.append(u'&%s%s' % (ent, semi))
                    self.m.count('named_refs')
                else:
                    out.append(r.choice([u'&#%d;', u'&#x%x;']) % ord(c))
            else:
                out.append(c)
        return u''.join(out)

    def stag(self, name, at):
        r = self.r
        s = [u'<' + self.name(name)]
        ks = at.keys()
        ks.sort()
        r.shuffle(ks)
        for k in ks:
            v = unicode(at[k])
            s.append(r.choice([u' ', u' ', u'\n', u'  ']))
            if v == k and r.random() < self.unq:
                s.append(self.name(k))
                self.m.count('short_attrs')
                continue
            eq = r.choice([u'=', u'=', u'=', u' = '])
            if v and r.random() < self.unq and all(c.isalnum() and ord(c) < 127 or c in u'.-_:#%+/' for c in v) \
                    and v[-1] != u'/':
                s.append(u'%s%s%s' % (self.name(k), eq, v))
                self.m.count('unquoted')
            else:
                q = r.choice([u'"', u"'"])
                s.append(u'%s%s%s%s%s' % (self.name(k), eq, q, self.esc(v, q), q))
        if r.random() < 0.1:
            s.append(u' ')
        if self.x and name in EMPTY:
            s.append(u'/')
        s.append(u'>')
        self.out.append(u''.join(s))

    def etag(self, name):
        self.out.append(u'</%s%s>' % (self.name(name), self.r.choice([u'', u'', u'', u' '])))

    def gap(self):
        """Between the children of elements without data"""
        if self.r.random() < self.ws:
            self.out.append(self.r.choice([u'\n', u' ', u'\n\t\t']))
        self.aside()

    def aside(self):
        if self.r.random() < self.noise:
            self.out.append(self.r.choice([u'<!-- x -->', u'<!---->', u'<?go on?>', u'<!-- <p>not this</p> & that -->']))
            self.m.count('asides')

    def skip(self):
        if self.r.random() < self.omit:
            self.m.count('omitted')
            return True
        return False

    def may_omit_end(self, name, nxt, parent):
        """nxt is the name of the next sibling, # for data or None"""
        if name == 'p':
            return nxt is None and parent != 'body-open' or nxt in BLOCK
        if name in ('dt', 'dd'):
            return nxt in (None, 'dt', 'dd')
        if name == 'li':
            return nxt in (None, 'li')
        if name == 'option':
            return nxt in (None, 'option', 'optgroup')
        if name in ('td', 'th', 'tr', 'tbody', 'thead', 'tfoot'):
            return True
        if name == 'colgroup':
            return nxt != 'col'
        return False

    def element(self, n, nxt, start=True, parent=None):
        """Returns True if the end tag was left out"""
        name, at, kids = n
        if start:
            self.stag(name, at)
        if name in EMPTY:
            return False
        if name in ('script', 'style'):
            self.out.append(self.esc(kids[0]) if self.x else kids[0]) if kids else None
            self.etag(name)
            return False
        mixed = '#' in MODEL[name]
        blocks = not mixed or bool(kids) and all(not isinstance(c, basestring) and c[0] in BLOCK for c in kids)
        omitted = False
        for i, c in enumerate(kids):
            if blocks:
                self.gap()
            if isinstance(c, basestring):
                if name == 'title' or name == 'textarea' or name == 'option':
                    self.out.append(self.esc(c))
                else:
                    j = self.r.randint(0, len(c)) if self.noise else 0
                    if j and j < len(c):
                        self.out.append(self.esc(c[:j]))
                        self.aside() if c[j] not in u'1 ' and not c[:j].endswith(u'&') else None
                        self.out.append(self.esc(c[j:]))
                    else:
                        self.out.append(self.esc(c))
                omitted = False
                continue
            k = kids[i + 1] if i + 1 < len(kids) else None
            k = k if k is None else '#' if isinstance(k, basestring) else k[0]
            first = True
            if c[0] == 'tbody' and not c[1] and not omitted and self.skip():
                first = False
                self.m.count('omitted_tbody')
            prev = omitted
            omitted = self.element(c, k, first, name)
            del prev
            if c[0] in ('thead', 'tfoot', 'tbody'):
                pass
        if blocks and kids:
            self.gap()
        if self.may_omit_end(name, nxt, parent) and self.skip():
            self.m.count('omitted_' + name)
            return True
        self.etag(name)
        return False

    def document(self, want, head):
        r = self.r
        hd, bd = want[2]
        if self.x:
            self.out.append(u'<?xml version="1.0"?>\n')
            self.stag('html', {'xmlns': NS})
            self.stag('head', {})
            for h in [hd[2][0]] + hd[2][1:]:
                self.gap()
                self.element(h, None)
            self.etag('head')
            self.stag('body', bd[1])
            self.m.count('xml_documents')
        else:
            if r.random() < 0.5:
                self.out.append(r.choice([
                    u'<!DOCTYPE HTML PUBLIC "-//W3C//DTD HTML 4.01//EN" "http://www.w3.org/TR/html4/strict.dtd">\n',
                    u'<!doctype html>', u'<!DOCTYPE HTML PUBLIC "-//W3C//DTD HTML 4.01 Transitional//EN">\n']))
            if not self.skip():
                self.stag('html', {'xmlns': NS} if r.random() < 0.2 else {})
                self.gap()
            # a script would be taken for the start of the body
            open_head = True
            if head[0][0] == 'script' or not self.skip():
                self.stag('head', {})
            for h in head:
                self.gap()
                self.element(h, None)
            if not self.skip():
                self.etag('head')
                open_head = False
            self.gap()
            first = bd[2][0][0]
            if bd[1] or (open_head and first in ('script', 'noscript', 'object')) or not self.skip():
                self.stag('body', bd[1])
            self.m.count('documents')
        for i, c in enumerate(bd[2]):
            self.gap()
            self.element(c, bd[2][i + 1][0] if i + 1 < len(bd[2]) else None, True, 'body')
        self.gap()
        if not (not self.x and self.skip()):
            self.etag('body')
            self.gap()
            self.etag('html')
        return u''.join(self.out)


def r_docs(m, r):
    """Valid documents written in every legal way give the tree they were written from"""
    for i in range(4):
        g = Gen(r)
        want = g.document()
        for xmode in (False, False, True):
            src = Render(r, m, xmode).document(want, g.head)
            m.key(hash(src))
            try:
                d = parse(src)
            except (Exception, java.lang.Throwable), e:
                m.violate('doc', u'%s %s: %s' % (type(e), e, src))
                continue
            obs = observe(d.root)
            if not m.eq(show(norm(obs)), show(norm(want)), 'xml' if xmode else 'doc', src):
                continue
            m.count('nodes', size(want))
            valid(m, obs, src)
            if r.random() < 0.5:
                round_trip(m, d, obs, src)


SOUP_TAGS = sorted((FLOW | set('li dt dd td th tr option caption legend area param tbody thead tfoot'.split())) -
                   set('script map select optgroup fieldset'.split())) + ['select', 'fieldset']
HARD = set('td th tr tbody thead tfoot caption param area dt dd li legend option'.split())


def subsequence(a, b):
    it = iter(b)
    return all(any(x == y for y in it) for x in a)


def r_soup(m, r):
    """Tags in any order: every piece of text and every element is there, in order, in a valid tree"""
    for i in range(6):
        hard = r.random() < 0.25
        tags = [t for t in SOUP_TAGS if hard or t not in HARD]
        tags = [r.choice(tags) for j in range(r.randint(2, 8))]
        out, words, started, opened = [], [], [], []
        if r.random() < 0.3:
            out.append(r.choice(['<html>', '<body>', '<HTML><BODY>', '<html><head><title></title></head><body>']))
        for j in range(r.choice([3, 6, 12, 25])):
            x = r.random()
            if x < 0.35:
                w = 'w%d' % len(words)
                words.append(w)
                out.append(w + r.choice(['', '', ' ', '\n']))
            elif x < 0.7:
                t = r.choice(tags)
                started.append(t)
                if t not in EMPTY:
                    opened.append(t)
                out.append('<%s%s%s>' % (r.choice([t, t.upper()]), r.choice(['', '', ' class=c', ' title="a b"', ' compact']),
                                         '/' if t in EMPTY and r.random() < 0.3 else ''))
            elif x < 0.92:
                if not words and not started:
                    continue
                if opened and r.random() < 0.8:
                    t = opened.pop(-1 if r.random() < 0.7 else r.randint(0, len(opened) - 1))
                else:
                    t = r.choice(tags)
                out.append('</%s>' % r.choice([t, t.upper()]))
            elif x < 0.96:
                out.append(r.choice(['<!-- c -->', ' ', '\n']))
            else:
                w = 'w%d' % len(words)
                words.append(w)
                out.append(r.choice(['&bogus%s;', '& %s', '&amp;%s', '&eacute;%s']).replace('%s', w))
        src = u''.join(out)
        if not words and not started:
            continue
        m.key(hash(src))
        m.count('soups')
        if DEBUG:
            print 'SRC', repr(src)
        try:
            d = parse(src)
        except (html.XHTMLError, xml.XMLError), e:
            m.count('refused')
            m.check(hard, 'refuse', u'%s %s: %s' % (type(e), e, src))
            continue
        except (Exception, java.lang.Throwable), e:
            m.violate('soup', u'%s %s: %s' % (type(e), e, src))
            continue
        m.count('accepted')
        obs = observe(d.root)
        got = re.findall(u'w[0-9]+', text_of(obs))
        m.eq(got, words, 'text', src, show(obs)[:1500])
        pre = preorder(obs, [])
        m.check(subsequence(started, pre), 'elements', started, pre, src)
        m.count('soup_elements', len(started))
        valid(m, obs, src)
        round_trip(m, d, obs, src)


def r_late(m, r):
    """Head elements met in the body go to the head without anything being lost"""
    for i in range(6):
        out, words, heads = [], [], []
        titled = False
        if r.random() < 0.5:
            out.append('<title>T</title>')
            titled = True
        if titled and r.random() < 0.3:
            out.append('</head><body>')
        for j in range(r.choice([2, 5, 9])):
            x = r.random()
            if x < 0.45:
                w = 'w%d' % len(words)
                words.append(w)
                out.append(r.choice(['%s', '<p>%s', '<p>%s</p>', '<div>%s</div>', '<ul><li>%s</ul>',
                                     '<blockquote><p>%s</blockquote>', '<p><b>%s</b>']) % w)
            elif x < 0.85:
                n = 'h%d' % len(heads)
                t = r.choice(['meta', 'link', 'style'])
                heads.append((t, n))
                out.append({'meta': '<meta name=%s content="x">', 'link': '<LINK rel=stylesheet title=%s href="x.css">',
                            'style': '<style title=%s>p {}</style>'}[t] % n)
            elif not titled:
                titled = True
                out.append('<TITLE>T</TITLE>')
        src = u''.join(out)
        if not src:
            continue
        m.key(hash(src))
        try:
            d = parse(src)
        except (Exception, java.lang.Throwable), e:
            m.violate('late', u'%s %s: %s' % (type(e), e, src))
            continue
        obs = observe(d.root)
        hd, bd = obs[2]
        m.eq(re.findall(u'w[0-9]+', text_of(bd)), words, 'late', src)
        m.eq([(c[0], c[1].get('name') or c[1].get('title')) for c in hd[2] if c[0] != 'title'], heads, 'late', src)
        m.eq(text_of(hd[2][0]), u'T' if titled else u'', 'late', src)
        m.count('late', len(heads))
        valid(m, obs, src)
        round_trip(m, d, obs, src)


FAMILIES = [
    Family('docs', r_docs, 900, 12000),
    Family('soup', r_soup, 1200, 15000),
    Family('late', r_late, 400, 4000),
]
