"""X02 the XML parser accepts exactly well-formed (valid) documents and reads them right"""

import re
from lib import Family, text
import xg
import java.lang
import pyslet.xml20081126.structures as xml
from pyslet.xml20081126.parser import XMLParser

PROPERTY = 'X02'
NAMES = [u'a', u'b', u'c', u'd-e', u'f.g', u'_h', u'x:y', u'\xe9l']
ATTRS = [u'p', u'q', u'r', u's-t', u'u:v', u'id', u'xml:space', u'xml:lang', u'\xe0']
TXT = [u'x', u'y', u'word', u' ', u'  ', u'\n', u'\r\n', u'\r', u'\t', u'>', u']', u']]', u'"', u"'", u'=', u'/', u'-', u'--', u'?', u'!', u'%', u'%z;', u';', u'#', u'\xe9', u'\u4e2d', u'\U0001f600', u'\x85', u'\u2028', u'\ufffd', u'\xa0', u'\x7f']
CREF = [u'&#65;', u'&#x41;', u'&#10;', u'&#13;', u'&#9;', u'&#32;', u'&#38;', u'&#60;', u'&#x3e;', u'&#x10FFFF;', u'&#233;', u'&#x1F600;', u'&#0065;', u'&#x00041;', u'&lt;', u'&gt;', u'&amp;', u'&quot;', u'&apos;', u'&#34;', u'&#39;', u'&#160;', u'&#x2028;']


def S(r):
    return r.choice([u' ', u' ', u' ', u'  ', u'\n', u'\t', u'\r\n', u' \n '])


def S0(r):
    return r.choice([u'', u'', u'', u' ', u'\n', u'\t '])


def comment(r):
    body = u''
    for i in range(r.randint(0, 4)):
        body += r.choice([u'x', u' ', u'-a', u'<b>', u'&c;', u'>', u'\n', u'\r\n', u'\xe9', u']]>', u'?>', u'<![CDATA[', u'%p;'])
    while u'--' in body or body[-1:] == u'-':
        body = body[:-1]
    return u'<!--%s-->' % body


def pi(r):
    t = r.choice([u'x', u'target', u'xm', u'xml-stylesheet', u'_', u'xmlish'])
    body = u''
    for i in range(r.randint(0, 4)):
        body += r.choice([u'x', u' ', u'?', u'>', u'<b>', u'&c;', u'--', u'"', u'\n'])
    while u'?>' in body or body[-1:] == u'?':
        body = body[:-1]
    return u'<?%s%s?>' % (t, S(r) + body if body or r.random() < 0.3 else u'')


def misc(r, n=2):
    o = u''
    for i in range(r.randint(0, n)):
        o += r.choice([comment, pi, lambda r: S(r)])(r)
    return o


class Doc(object):

    def __init__(self, r, valid=False):
        self.r = r
        self.ents = {}      # name -> may it be in an attribute value
        self.markup = {}    # entities with markup
        self.feat = set()
        self.declared = {}
        self.dtd = u''
        if r.random() < 0.75:
            self.dtd = self.doctype()

    def ch(self, ent=True, attr=None):
        """one piece of character data; attr: the quote"""
        r = self.r
        k = r.random()
        if k < 0.2:
            self.feat.add('cref')
            return r.choice(CREF)
        if ent and k < 0.35 and self.ents:
            self.feat.add('entity')
            return u'&%s;' % r.choice(sorted(self.ents))
        while True:
            c = r.choice(TXT)
            if c != attr:
                return c

    def chars(self, attr=None, n=5, ent=True):
        s = u''.join(self.ch(ent, attr) for i in range(self.r.randint(0, n)))
        if attr is None:
            while u']]>' in s:
                s = s[:s.index(u']]>')]
        return s

    def attval(self):
        q = self.r.choice(u'\'"')
        return q + self.chars(q) + q

    def attributes(self, skip=()):
        r = self.r
        names = [a for a in ATTRS if a not in skip]
        o = u''
        for a in r.sample(names, r.choice([0, 0, 1, 1, 2, 3])):
            if a == u'xml:space':
                v = r.choice([u'"preserve"', u"'default'"])
            elif a == u'xml:lang':
                v = r.choice([u'"en"', u"'fr-FR'", u'""'])
            else:
                v = self.attval()
            o += S(r) + a + r.choice([u'=', u'=', u' = ', u'\n=']) + v
            self.feat.add('attribute')
        return o

    def element(self, depth):
        r = self.r
        n = r.choice(NAMES)
        a = self.attributes()
        if r.random() < 0.25:
            return u'<%s%s%s/>' % (n, a, S0(r))
        return u'<%s%s%s>%s</%s%s>' % (n, a, S0(r), self.content(depth), n, S0(r))

    def content(self, depth):
        r = self.r
        o = u''
        for i in range(r.randint(0, 4)):
            k = r.randrange(10)
            if k < 3 and depth:
                p = self.element(depth - 1)
            elif k < 6:
                p = self.chars()
            elif k == 6:
                b = self.chars(u'&', 4, False)
                while u']]>' in b:
                    b = b[:b.index(u']]>')]
                while b[-1:] == u']':
                    b = b[:-1]
                p = u'<![CDATA[%s]]>' % (b + r.choice([u'', u'<x>', u'&amp;', u'<![CDATA[', u'&']))
                self.feat.add('cdata')
            elif k == 7:
                p = comment(r)
                self.feat.add('comment')
            elif k == 8:
                p = pi(r)
                self.feat.add('pi')
            elif self.markup:
                p = u'&%s;' % r.choice(sorted(self.markup))
                self.feat.add('markup-entity')
            else:
                p = u''
            if o[-1:] == u']' and p[:1] in (u'>', u']'):
                p = u' ' + p
            o += p
        while u']]>' in o.replace(u'', u'') and not balanced(o):
            o = o.replace(u']]>', u']] >', 1)
        return o

    def doctype(self):
        r = self.r
        o = u''
        for i in range(r.randint(0, 7)):
            k = r.randrange(9)
            if k < 3:
                o += self.entity()
            elif k < 5:
                o += self.attlist()
            elif k == 5:
                o += u'<!ELEMENT%s%s%s%s%s>' % (S(r), r.choice(NAMES), S(r), r.choice([u'EMPTY', u'ANY', u'(#PCDATA)', u'(a|b)*', u'(a,(b|c)+,d-e?)', u'( #PCDATA | a )*', u'(#PCDATA)*', u'((a))', u'(a)', u'(a?,b*)', u'((a,b)|(b,a))+']), S0(r))
            elif k == 6:
                o += u'<!NOTATION%sn%i%s%s>' % (S(r), i, S(r), r.choice([u'SYSTEM "x"', u"PUBLIC 'a b'", u'PUBLIC "p"\n"s"', u'SYSTEM ""']))
            else:
                o += misc(r, 1)
            o += S0(r)
        self.feat.add('dtd')
        return u'<!DOCTYPE%s%s%s[%s]%s>' % (S(r), r.choice(NAMES), S0(r), S0(r) + o, S0(r))

    def entity(self):
        r = self.r
        n = r.choice([u'e', u'f', u'g', u'e.1', u'\xe9', u'h_'])
        k = r.randrange(8)
        if k == 7 and n not in self.ents and n not in self.markup:
            self.ents = dict((x, y) for x, y in self.ents.items() if x != n)
            m = u'z%i' % r.randrange(3)
            return u'<!ENTITY%s%s%s%s%s>' % (S(r), m, S(r), r.choice([u'SYSTEM "x.xml"', u'PUBLIC "p" "x.gif"', u'SYSTEM "x.gif" NDATA n0']), S0(r))
        q = r.choice(u'\'"')
        if k < 4:
            v = u''
            for i in range(r.randint(0, 4)):
                c = self.ch(True, q)
                if c in (u'%', u'%z;', u'\U0001f600', u'&#x1F600;', u'&#x10FFFF;', u'&#13;'):
                    continue        # (the independent parser loses astral characters of entities in attribute values and carriage returns, see fam_cr)
                if c in (u'&#38;', u'&#60;', u'&#x26;', u'&#x3c;'):
                    c = c.replace(u'&', u'&#38;')
                if c == u'&#34;' or c == u'&#39;':
                    pass
                v += c
            if u']]' in v:
                v = u'z'
            if n not in self.ents and n not in self.markup:
                self.ents[n] = True
        else:
            inner = Doc.__new__(Doc)
            inner.r = r
            inner.ents = dict(self.ents)
            inner.markup = dict(self.markup)
            inner.feat = set()
            v = inner.content(1)
            # literal & and < are fine, quotes and % are not, references are expanded twice
            for a, b in ((u'&#38;', u'&#38;#38;'), (u'&#60;', u'&#38;#60;')):
                v = v.replace(a, b)
            if u'&#13;' in v or q in v or u'%' in v or u'\U0001f600' in v or u'1F600' in v or u'10FFFF' in v:
                v = u'<a/>&#65;<![CDATA[ ]]>' if q == u'"' else u'x<b p="1">y</b>'
            if n not in self.ents and n not in self.markup:
                self.markup[n] = True
            self.feat.add('markup-entity-declared')
        return u'<!ENTITY%s%s%s%s%s%s%s>' % (S(r), n, S(r), q, v, q, S0(r))

    def attlist(self):
        r = self.r
        el = r.choice(NAMES)
        o = u'<!ATTLIST%s%s' % (S(r), el)
        for i in range(r.randint(0, 3)):
            left = [x for x in ATTRS if x != u'xml:space' and x not in self.declared.get(el, [])]
            if not left:
                break
            a = r.choice(left)
            self.declared.setdefault(el, []).append(a)
            ty = r.choice([u'CDATA', u'CDATA', u'NMTOKEN', u'NMTOKENS', u'ID', u'IDREF', u'IDREFS', u'ENTITY', u'ENTITIES', u'(x|y|word)', u'( x |\ny )'])
            if ty == u'ID':
                df = r.choice([u'#IMPLIED', u'#REQUIRED'])
            elif ty in (u'CDATA',):
                df = r.choice([u'#IMPLIED', u'#REQUIRED', u'#FIXED' + S(r) + self.attval(), self.attval(), self.attval()])
            else:
                q = r.choice(u'\'"')
                v = q + r.choice([u'x', u'y']) + q
                df = r.choice([u'#IMPLIED', u'#REQUIRED', u'#FIXED' + S(r) + v, v])
            o += S(r) + a + S(r) + ty + S(r) + df
            self.feat.add('attlist')
        return o + S0(r) + u'>'

    def document(self):
        r = self.r
        head = r.choice([u'', u'', u'<?xml version="1.0"?>', u"<?xml version='1.0' encoding='UTF-8'?>", u'<?xml version="1.0" standalone="yes" ?>', u'<?xml\tversion = "1.0"\nencoding="utf-8" standalone=\'no\'?>'])
        return head + misc(r) + self.dtd + (misc(r) if self.dtd else u'') + self.element(3) + misc(r)


def balanced(o):
    # every ]]> ends a CDATA section, comment or PI
    i = 0
    while True:
        j = o.find(u']]>', i)
        if j < 0:
            return True
        # strip constructs
        k = 0
        ok = False
        while k <= j:
            nxt = min([(o.find(s, k), e) for s, e in ((u'<![CDATA[', u']]>'), (u'<!--', u'-->'), (u'<?', u'?>')) if o.find(s, k) >= 0] or [(-1, u'')])
            if nxt[0] < 0 or nxt[0] > j:
                break
            end = o.find(nxt[1], nxt[0] + 2)
            if end < 0:
                return True
            if j < end + len(nxt[1]):
                ok = True
                break
            k = end + len(nxt[1])
        if not ok:
            # inside an attribute value or comment?
            return False
        i = j + 3


class Hang(Exception):
    pass


def verdict(src, validate=False):
    """('ok', tree, valid errors) | ('refused', exception) | ('failed', exception)"""
    p = XMLParser(xml.XMLEntity(src))
    p.checkValidity = validate
    d = xml.Document()
    try:
        p.ParseDocument(d)
    except xml.XMLFatalError as e:
        return ('refused', e)
    except java.lang.StackOverflowError as e:
        return ('failed', 'StackOverflowError')
    except Exception as e:
        return ('failed', '%s: %s' % (type(e).__name__, text(e)))
    return ('ok', xg.of(d.root), p.nonFatalErrors, p.valid, p)


def jverdict(src, validate=False):
    try:
        dom, errs = xg.jparse(src, False, validate)
        return ('ok', xg.jtree(dom.getDocumentElement()), errs)
    except java.lang.Exception as e:
        return ('refused', text(e.getMessage()))


def kindof(src, validate=False):
    j = jverdict(src, validate)
    p = verdict(src, validate)
    if p[0] == 'failed':
        return 'failed ' + p[1][:20]
    if p[0] != j[0]:
        return p[0] + (str(p[1]).split(':', 1)[-1][:24] if p[0] == 'refused' else j[1][:24])
    if p[0] == 'ok':
        if xg.diff(p[1], j[1]):
            return 'content'
        if validate and bool(j[2]) != bool(p[2]):
            return 'validity' + str(bool(j[2]))
    return None


def reduce(src, validate=False, budget=400):
    """a smaller document on which the two disagree in the same way"""
    want = kindof(src, validate)
    if want is None:
        return src
    size = max(1, len(src) // 2)
    while size and budget > 0:
        i = 0
        while i < len(src) and budget > 0:
            t = src[:i] + src[i + size:]
            budget -= 1
            if t and comparable(t) and kindof(t, validate) == want:
                src = t
            else:
                i += size
        size //= 2
    return src


REDUCED = [0]


def compare(m, src, what, strict=True):
    n = m.mechs.copy()
    j = compare1(m, src, what)
    if m.mechs != n and REDUCED[0] < 40 and len(src) > 30:
        REDUCED[0] += 1
        s = reduce(src)
        for v in m.violations[-1:]:
            if v['index'] == m.index and v['family'] == m.family:
                v['msg'] = 'reduced: %s independent %s pyslet %s\n' % (text(repr(s)), text(jverdict(s)[1]), text(verdict(s)[1])) + v['msg'][:1500]
    return j


def compare1(m, src, what):
    j = jverdict(src)
    p = verdict(src)
    if p[0] == 'failed':
        m.violate(what + ':failed', '%s on %r (independent parser: %s)' % (p[1], src, j[0] if j[0] == 'ok' else j[1]))
        return j
    m.count('assertions')
    if p[0] == 'refused' and j[0] == 'ok' and '[52] AttlistDecl: Expected >' in str(p[1]):
        m.count('attribute_definitions_run_together')   # which the independent parser tolerates
    elif j[0] != p[0]:
        m.violate(what + (':accepted' if p[0] == 'ok' else ':refused'), '%r: independent parser says %s; pyslet %s' % (src, j[1] if j[0] == 'refused' else 'well-formed', p[1]))
    elif j[0] == 'ok':
        d = xg.diff(p[1], j[1])
        m.check(d is None, what + ':content', d, src)
    return j


def fam_wf(m, r):
    d = Doc(r)
    src = d.document()
    m.key(src)
    j = compare(m, src, 'wf')
    if j[0] == 'ok':
        m.count('wellformed')
        for f in d.feat:
            m.count('with_' + f)
    else:
        m.count('generator_not_wf')


HOSTILE = [u'<', u'>', u'&', u'"', u"'", u'/', u'=', u'?', u'!', u'-', u'--', u']', u'[', u']]>', u'<!--', u'-->', u'<?', u'?>', u'<![CDATA[', u'&#', u'&#x', u';', u'&lt;', u'&e;', u'&zz;', u'%', u'%z;', u'<a>', u'</a>', u'<a/>', u'</',
           u'<!', u'<!ENTITY e "', u'<!DOCTYPE a []>', u' ', u'\n', u'\x00', u'\x01', u'\x0b', u'\x1f', u'\ufffe', u'\uffff', u'\x85', u'a', u'1', u'-1', u':', u'&#0;', u'&#xD800;', u'&#xFFFE;', u'&#x110000;', u'&#1;', u'(', u')', u'|', u',', u'*', u'+', u'#', u'<?xml version="1.0"?>', u'<?xml?>', u'p="1"', u'#PCDATA', u'SYSTEM', u'PUBLIC "', u'NDATA n', u'EMPTY', u'CDATA', u'#FIXED']


def mutate(r, s):
    for i in range(r.choice([1, 1, 1, 2])):
        k = r.randrange(7)
        a = r.randint(0, len(s))
        b = min(len(s), a + r.choice([1, 1, 2, 3, 8]))
        if k == 0:
            s = s[:a] + s[b:]
        elif k == 1:
            s = s[:a] + r.choice(HOSTILE) + s[a:]
        elif k == 2:
            s = s[:a] + r.choice(HOSTILE) + s[b:]
        elif k == 3:
            s = s[:b] + s[a:]
        elif k == 4:
            c = r.randint(0, len(s))
            s = s[:c] + s[a:b] + s[c:]
        elif k == 5:
            s = s[:a]
        else:
            # at a delimiter
            at = [i for i, c in enumerate(s) if c in u'<>&;"\'=/?![]-']
            if at:
                a = r.choice(at)
                s = r.choice([s[:a] + s[a + 1:], s[:a] + s[a] + s[a:], s[:a] + r.choice(HOSTILE) + s[a + 1:], s[:a] + u' ' + s[a:], s[:a + 1] + u' ' + s[a + 1:]])
    return s


def comparable(s):
    """the two parsers may legitimately differ outside these"""
    if not s:
        return False
    if s[:5] == u'<?xml' and u'?>' in s:
        h = s[:s.index(u'?>')]
        if u"'1.0'" not in h and u'"1.0"' not in h or u'1.0' not in (h + u'=').split(u'=')[1]:
            return False
        if u'encoding' in h and not re.search(u'encoding\\s*=\\s*["\'][A-Za-z][A-Za-z0-9._-]*["\']', h):
            return False    # not checked by the independent parser when it is given characters
        if re.search(u'["\'][a-z]', re.sub(u'=\\s*("[^"]*"|\'[^\']*\')', u'="', h)):
            return False    # missing space tolerated by the independent parser
    if u'<!ENTITY' in s and re.search(u'&#(13|[xX]0*[dD]);', s):
        return False        # see fam_cr
    if u'%' in s and u'<!DOCTYPE' in s:
        return False        # parameter entity references are optional for a non-validating parser
    i = s.find(u'<!DOCTYPE')
    if i >= 0:
        j = s.find(u'[', i)
        k = s[i:j if j >= 0 else len(s)]
        if u'SYSTEM' in k or u'PUBLIC' in k:
            return False    # external subset
    return True


def fam_mutate(m, r):
    for tries in range(8):
        d = Doc(r)
        src = d.document()
        if jverdict(src)[0] == 'ok':
            break
    s = mutate(r, src)
    m.key(s, s != src)
    if not comparable(s):
        m.count('not_comparable')
        return
    j = compare(m, s, 'mutant')
    m.count('mutant_' + ('wf' if j[0] == 'ok' else 'refused'))


# ------------------------------------------------ well-formedness constraints, one broken at a time

def broken(r):
    """(label, document) that breaks one constraint"""
    n = r.choice(NAMES)
    w = r.choice([u'', u'text', u'<b/>', u' '])
    k = r.randrange(36)
    doc = u'<%s>%s%%s</%s>' % (n, w, n)
    ent = lambda v: u'<!DOCTYPE a [<!ENTITY e "%s">]><a>' % v + w
    return [
        ('end tag', u'<%s>%s</%sx>' % (n, w, n)), ('no end', u'<%s>%s' % (n, w)), ('two roots', doc % u'' + u'<a/>'), ('text after', doc % u'' + u'x'), ('text before', u'x' + doc % u''),
        ('cdata after', doc % u'' + u'<![CDATA[]]>'), ('dup attr', u'<%s a="1" b="2" a="1"/>' % n), ('no quotes', u'<%s a=1/>' % n), ('no value', u'<%s a/>' % n), ('lt in value', u'<%s a="<"/>' % n),
        ('amp in value', u'<%s a="&"/>' % n), ('no space', u'<%s a="1"b="2"/>' % n), ('bare amp', doc % u'& '), ('unclosed ref', doc % u'&amp '), ('undeclared', doc % u'&nope;'), ('undeclared in value', u'<%s a="&nope;"/>' % n),
        ('cdend', doc % u']]>'), ('dashes', doc % u'<!-- a -- b -->'), ('dash end', doc % u'<!-- a --->'), ('pi xml', doc % u'<?xml version="1.0"?>'), ('pi XML', doc % u'<?XmL x?>'), ('late decl', u' <?xml version="1.0"?>' + doc % u''),
        ('bad char', doc % r.choice([u'\x00', u'\x08', u'\x0c', u'\x1b', u'\ufffe', u'\uffff'])), ('bad ref', doc % r.choice([u'&#0;', u'&#8;', u'&#xB;', u'&#xFFFF;', u'&#xD800;', u'&#xDFFF;', u'&#x110000;', u'&#;', u'&#x;', u'&#xG;', u'&#1a;', u'&# 65;'])),
        ('recursion', ent(u'&e;') + u'&e;</a>'), ('lt entity in value', u'<!DOCTYPE a [<!ENTITY e "&#60;">]><a b="&e;"/>'), ('unbalanced entity', ent(r.choice([u'<b>', u'</a><a>', u'<!--', u'<![CDATA[', u'&#38;', u'&#60;b'])) + u'&e;</a>'),
        ('external in value', u'<!DOCTYPE a [<!ENTITY e SYSTEM "x">]><a b="&e;"/>'), ('unparsed ref', u'<!DOCTYPE a [<!NOTATION n SYSTEM "n"><!ENTITY e SYSTEM "x" NDATA n>]><a>&e;</a>'), ('declared after use in default', u'<!DOCTYPE a [<!ATTLIST a b CDATA "&e;"><!ENTITY e "x">]><a/>'),
        ('two doctypes', u'<!DOCTYPE a><!DOCTYPE a><a/>'), ('doctype after', u'<a/><!DOCTYPE a>'), ('lower doctype', u'<!doctype a><a/>'), ('pe in decl', u'<!DOCTYPE a [<!ENTITY % p "x"><!ENTITY e "%p;">]><a/>'),
        ('empty', r.choice([u' ', u'<!-- -->', u'<?x?>', u'<?xml version="1.0"?>'])), ('decl', r.choice([u'<?xml?>', u'<?xml encoding="UTF-8"?>', u'<?xml version="1.0" standalone="maybe"?>', u'<?xml version="1.0" standalone="yes" encoding="UTF-8"?>', u'<?xml version=1.0?>', u'<?xml version="1.0"', u'<?xml version="1.0">', u'<?xml version="1.0" encoding="-8"?>', u'<?xml version="1.0"encoding="UTF-8"?>']) + u'<a/>'),
    ][k]


def fam_broken(m, r):
    label, s = broken(r)
    m.key((label, s))
    j = jverdict(s)
    if j[0] == 'ok':
        m.count('harness_ok')
        return
    compare(m, s, 'constraint:' + label)
    m.count('constraints')


# ------------------------------------------------ validity

class Model(object):

    """random content models and documents near them"""

    def __init__(self, r):
        self.r = r
        self.names = [u'a', u'b', u'c', u'd']
        self.models = {}
        self.kinds = {}
        for n in [u'root'] + self.names:
            k = r.randrange(8)
            if n == u'root' or k < 4:
                self.models[n] = self.cp(2, top=True)
                self.kinds[n] = 'children'
            elif k == 4:
                self.models[n] = u'EMPTY'
                self.kinds[n] = 'empty'
            elif k == 5:
                self.models[n] = u'ANY'
                self.kinds[n] = 'any'
            elif k == 6:
                self.models[n] = u'(#PCDATA)'
                self.kinds[n] = 'pcdata'
            else:
                self.mix = r.sample(self.names, 2)
                self.models[n] = ('mixed', list(self.mix))
                self.kinds[n] = 'mixed'
        self.undeclared = r.choice(self.names) if r.random() < 0.05 else None
        self.atts = {}
        for n in [u'root'] + self.names:
            l = []
            for i in range(r.choice([0, 0, 1, 2])):
                ty = r.choice([u'CDATA', u'ID', u'IDREF', u'IDREFS', u'NMTOKEN', u'NMTOKENS', u'(x|y|z)', u'ENTITY', u'NOTATION (n1|n2)'])
                if ty in (u'ID', u'NOTATION (n1|n2)') and [x for x in l if x[1] == ty]:
                    continue
                if ty[:3] == u'NOT' and self.kinds[n] == 'empty':
                    continue
                df = r.choice([u'#IMPLIED', u'#REQUIRED', u'default', u'#FIXED'])
                if ty == u'ID':
                    df = r.choice([u'#IMPLIED', u'#REQUIRED'])
                l.append((u't%i' % i, ty, df, self.value(ty)))
            self.atts[n] = l

    def value(self, ty, good=True):
        r = self.r
        if not good and ty != u'CDATA':
            return r.choice([u'', u'?', u'1', u'x y', u'w', u'q1', u'zz'])
        if ty == u'CDATA':
            return r.choice([u'', u'any thing', u'x'])
        if ty == u'ID':
            return u'i%i' % r.randrange(12)
        if ty == u'IDREF':
            return u'i%i' % r.randrange(4)
        if ty == u'IDREFS':
            return r.choice([u'i1 i2', u'i0', u' i1  i1 '])
        if ty == u'NMTOKEN':
            return r.choice([u'1', u'-x', u' a.b '])
        if ty == u'NMTOKENS':
            return r.choice([u'1 2', u'x', u' 1\t2 '])
        if ty == u'ENTITY':
            return r.choice([u'u1', u'u2'])
        if ty[0] == u'(':
            return r.choice([u'x', u'y', u' z '])
        return r.choice([u'n1', u'n2'])

    def cp(self, depth, top=False):
        r = self.r
        occ = r.choice([u'', u'', u'?', u'*', u'+'])
        if not top and (depth == 0 or r.random() < 0.5):
            return ('name', r.choice(self.names), occ)
        return (r.choice(['seq', 'choice']), [self.cp(depth - 1) for i in range(r.randint(1, 3))], occ)

    def show(self, c):
        if isinstance(c, unicode):
            return c
        if c[0] == 'mixed':
            return u'(#PCDATA|%s)*' % u'|'.join(c[1])
        if c[0] == 'name':
            return c[1] + c[2]
        return u'(' + (u',' if c[0] == 'seq' else u'|').join(self.show(x) for x in c[1]) + u')' + c[2]

    def deterministic(self, c):
        """conservative: every name at most once in the model"""
        names = []

        def walk(x):
            if x[0] == 'name':
                names.append(x[1])
            else:
                for y in x[1]:
                    walk(y)
        walk(c)
        return len(names) == len(set(names))

    def sample(self, c):
        r = self.r
        n = {u'': 1, u'?': r.randint(0, 1), u'*': r.randint(0, 2), u'+': r.randint(1, 2)}[c[2]]
        out = []
        for i in range(n):
            if c[0] == 'name':
                out.append(c[1])
            elif c[0] == 'seq':
                for x in c[1]:
                    out += self.sample(x)
            else:
                out += self.sample(r.choice(c[1]))
        return out

    def dtd(self):
        r = self.r
        o = [u'<!NOTATION n1 SYSTEM "1"><!NOTATION n2 PUBLIC "2">', u'<!ENTITY u1 SYSTEM "u" NDATA n1><!ENTITY u2 SYSTEM "v" NDATA n2>', u'<!ENTITY t "text"><!ENTITY mk "<a/>">']
        for n in [u'root'] + self.names:
            if n != self.undeclared:
                o.append(u'<!ELEMENT %s %s>' % (n, self.show(self.models[n])))
            for a, ty, df, v in self.atts[n]:
                o.append(u'<!ATTLIST %s %s %s %s>' % (n, a, ty, {u'default': u'"%s"' % v, u'#FIXED': u'#FIXED "%s"' % v}.get(df, df)))
        if r.random() < 0.04:
            o.append(r.choice([u'<!ELEMENT a ANY>', u'<!ATTLIST a zid ID #IMPLIED zid2 ID #IMPLIED>', u'<!ATTLIST a zz (x|y) "q">', u'<!ATTLIST a zz NMTOKEN "">', u'<!ENTITY u9 SYSTEM "u" NDATA nope>', u'<!ATTLIST a zz NOTATION (nope) #IMPLIED>', u'<!NOTATION n1 SYSTEM "x">', u'<!ELEMENT m (#PCDATA|a|a)*>', u'<!ATTLIST a zz ID "x">', u'<!ATTLIST a zz (x|x) #IMPLIED>', u'<!ATTLIST a xml:space (no|yes) #IMPLIED>']))
        return u'\n'.join(o)

    def element(self, n, depth, err):
        r = self.r
        a = u''
        for name, ty, df, v in self.atts[n]:
            bad = r.random() < err
            if df == u'#REQUIRED' or r.random() < 0.5:
                if bad and r.random() < 0.3 and df == u'#REQUIRED':
                    continue
                x = self.value(ty, not bad)
                if df == u'#FIXED' and not bad:
                    x = v
                if ty == u'ID' and not bad:
                    self.nid += 1
                    x = u'i%i' % self.nid
                a += u' %s="%s"' % (name, x)
        if r.random() < err / 3:
            a += u' undecl="1"'
        k = self.kinds[n]
        bad = r.random() < err
        c = []
        if k == 'children':
            names = self.sample(self.models[n])
            if bad:
                z = r.randrange(4)
                if z == 0 and names:
                    names.pop(r.randrange(len(names)))
                elif z == 1:
                    names.insert(r.randint(0, len(names)), r.choice(self.names))
                elif z == 2 and len(names) > 1:
                    r.shuffle(names)
            if depth <= 0:
                names = names[:3]
            if len(names) > 8:
                names = names[:8]
            for x in names:
                c.append(r.choice([u'', u'', u' ', u'\n', u'<!-- -->', u'<?p?>']))
                c.append(self.element(x, depth - 1, err) if depth > 0 else u'<%s/>' % x)
            if bad and r.random() < 0.3:
                c.append(r.choice([u'text', u'<![CDATA[ ]]>', u'&t;']))
        elif k == 'empty':
            if bad:
                c.append(r.choice([u' ', u'x', u'<a/>', u'<!-- -->', u'<?p?>', u'&t;']))
        elif k == 'pcdata':
            c.append(r.choice([u'', u'text', u'&t;', u'<![CDATA[x]]>', u'<!-- c -->x']))
            if bad:
                c.append(r.choice([u'<a/>', u'&mk;']))
        else:
            pool = self.models[n][1] if k == 'mixed' else self.names
            for i in range(r.randint(0, 3)):
                c.append(r.choice([u'text', u'&t;', u' ']))
                if depth > 0:
                    c.append(self.element(r.choice(self.names if bad else pool), depth - 1, err))
        body = u''.join(c)
        return u'<%s%s>%s</%s>' % (n, a, body, n) if body or r.random() < 0.5 else u'<%s%s/>' % (n, a)

    def document(self, err):
        r = self.r
        self.nid = -1
        root = u'root' if r.random() > err / 4 else u'a'
        return u'<!DOCTYPE root [%s]>%s' % (self.dtd(), self.element(root, 3, err))


def fam_valid(m, r):
    for tries in range(50):
        mod = Model(r)
        if all(mod.kinds[n] != 'children' or mod.deterministic(mod.models[n]) for n in mod.models):
            break
    else:
        return
    src = mod.document(r.choice([0, 0, 0.05, 0.2]))
    m.key(src)
    j = jverdict(src, True)
    p = verdict(src, True)
    if p[0] == 'failed' or p[0] != j[0]:
        m.violate('valid:' + p[0], '%r: %s on %r (independent parser: %s)' % (reduce(src, True), p[1], src, j[0] if j[0] == 'ok' else j[1]))
        return
    if j[0] != 'ok':
        m.count('valid_not_wf')
        return
    d = xg.diff(p[1], j[1])
    m.check(d is None, 'valid:content', d, src)
    errs = [e for e in j[2]]
    if errs:
        m.count('invalid')
        if not (p[2] and p[3] is False):
            s = reduce(src, True) if REDUCED[0] < 10 else src
            REDUCED[0] += 1
            m.violate('invalid-accepted:' + kind(errs[0]), '%r %s' % (s, errs))
    else:
        m.count('valid')
        m.check(not p[2] and p[3] is not False, 'valid-refused', p[2], src)
    # raised when asked
    pr = XMLParser(xml.XMLEntity(src))
    pr.checkValidity = True
    pr.raiseValidityErrors = True
    if p[2]:
        m.raises(xml.XMLValidityError, 'not-raised', pr.ParseDocument, xml.Document())
    else:
        pr.ParseDocument(xml.Document())


def kind(e):
    return re.sub('"[^"]*"', '_', text(e))[:60]


# ------------------------------------------------ characters

def fam_chars(m, r):
    """name and data characters by range boundaries (names: where both editions agree)"""
    edges = [0, 8, 9, 0xa, 0xb, 0xd, 0x1f, 0x20, 0x7e, 0x7f, 0x80, 0x9f, 0xb6, 0xb7, 0xb8, 0xbf, 0xc0, 0xd6, 0xd7, 0xd8, 0xf6, 0xf7, 0xf8, 0x2ff, 0x300, 0x36f, 0x370, 0x37d, 0x37e, 0x37f, 0x1fff, 0x2000, 0x200b, 0x200c, 0x200d, 0x200e, 0x203e, 0x203f, 0x2040, 0x2041,
             0x206f, 0x2070, 0x218f, 0x2190, 0x2bff, 0x2c00, 0x2fef, 0x2ff0, 0x3000, 0x3001, 0xd7ff, 0xe000, 0xf8ff, 0xf900, 0xfdcf, 0xfdd0, 0xfdef, 0xfdf0, 0xfffd, 0xfffe, 0xffff]
    c = r.choice([r.choice(edges), r.randrange(0x21, 0x80), r.randrange(0x80, 0xd800), r.randrange(0xe000, 0x10000)])
    m.key(c)
    u = unichr(c)
    START = [(0x3a, 0x3a), (0x41, 0x5a), (0x5f, 0x5f), (0x61, 0x7a), (0xc0, 0xd6), (0xd8, 0xf6), (0xf8, 0x2ff), (0x370, 0x37d), (0x37f, 0x1fff), (0x200c, 0x200d), (0x2070, 0x218f), (0x2c00, 0x2fef), (0x3001, 0xd7ff), (0xf900, 0xfdcf), (0xfdf0, 0xfffd)]
    MORE = START + [(0x2d, 0x2e), (0x30, 0x39), (0xb7, 0xb7), (0x300, 0x36f), (0x203f, 0x2040)]
    char = c in (9, 10, 13) or 0x20 <= c <= 0xd7ff or 0xe000 <= c <= 0xfffd
    inn = lambda t: any(a <= c <= b for a, b in t)

    def parsed(src):
        v = verdict(src)
        if v[0] == 'failed':
            m.violate('char-failed', '%s %r' % (v[1], src))
        return v
    m.eq(bool(xml.IsChar(u)), char, 'IsChar', hex(c))
    m.eq(bool(xml.IsNameStartChar(u)), inn(START), 'IsNameStartChar', hex(c))
    m.eq(bool(xml.IsNameChar(u)), inn(MORE), 'IsNameChar', hex(c))
    m.eq(bool(xml.IsS(u)), c in (9, 10, 13, 32), 'IsS', hex(c))
    m.eq(bool(xml.IsPubidChar(u)), c < 128 and chr(c) in " \r\n0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ-'()+,./:=?;!*#@$_%", 'IsPubidChar', hex(c))
    v = parsed(u'<a>x%sy</a>' % u if u not in u'<&' else u'<a>x</a>')
    m.check((v[0] == 'ok') == char, 'data-char', hex(c), v[0])
    if v[0] == 'ok' and u not in u'<&\r':
        m.eq(v[1][2], [u'x%sy' % u], 'data-char', hex(c))
    v = parsed(u'<a>&#x%x;</a>' % c)
    m.check((v[0] == 'ok') == char, 'char-ref', hex(c))
    if v[0] == 'ok':
        m.eq(v[1][2], [u], 'char-ref', hex(c))
    if u not in u'<>&/ \t\r\n!?=\'"':
        v = parsed(u'<%s/>' % u)
        m.check((v[0] == 'ok') == inn(START), 'start-char', hex(c))
        v = parsed(u'<a%s/>' % u)
        m.check((v[0] == 'ok') == inn(MORE), 'name-char', hex(c))
        v = parsed(u'<a b%s="1"/>' % u)
        m.check((v[0] == 'ok') == inn(MORE), 'attr-char', hex(c))
    m.count('characters')


# ------------------------------------------------ line ends and attribute white space, against a model

def fam_ends(m, r):
    """literal and referenced carriage returns, line feeds and tabs, directly and through entities"""
    toks = [(u'\r', u'\n', u' '), (u'\n', u'\n', u' '), (u'\r\n', u'\n', u' '), (u'\t', u'\t', u' '), (u'x', u'x', u'x'), (u' ', u' ', u' '), (u'&#13;', u'\r', u'\r'), (u'&#xA;', u'\n', u'\n'), (u'&#9;', u'\t', u'\t')]

    def run(ent):
        src = txt = att = u''
        for i in range(r.randint(0, 7)):
            t = r.choice(toks)
            if src[-1:] == u'\r' and t[0][0] == u'\n':
                continue
            src += t[0]
            # inside an entity value the reference is expanded when declared, so that it's normalised in attributes
            txt += t[1]
            att += u' ' if ent and t[0][0] == u'&' else t[2]
        return src, txt, att
    e = run(True)
    d = run(False)
    f = run(False)
    use = r.random() < 0.7
    a, b = r.choice([(u'', u''), (u'y', u''), (u'', u'y'), (u'y', u'y')])
    if d[0][-1:] == u'\r' and not use and (b + f[0])[:1] == u'\n':
        b = u'y'
    if not use and d[0][-1:] == u'\r' and b == u'' and f[0][:1] == u'\n':
        b = u'y'
    body = [d[i] + a + (([u'&e;', e[1], e[2]][i]) if use else u'') + b + f[i] for i in range(3)]
    if u'\r\n' in body[0].replace(d[0], u'').replace(f[0], u'') and not use:
        pass
    src = u'<!DOCTYPE r [<!ENTITY e "%s">]><r a="%s">%s</r>' % (e[0], body[0], body[0])
    m.key(src)
    if r.random() < 0.5:
        ents = xml.XMLEntity(src)
        p = XMLParser(ents)
        doc = xml.Document()
        p.ParseDocument(doc)
    else:
        # through bytes, in which a CR LF pair may fall across a read
        pad = r.choice([0, 0, 1, 100, 4090 - len(src), 4096 - len(src.split(u'<r')[0]) - 12])
        doc = xml.Document()
        doc.Read(src=xml.XMLEntity(u'<?xml version="1.0"?><!--%s-->' % (u' ' * max(0, pad)) + src))
    root = doc.root
    attrs = root.GetAttributes()
    got = attrs.get('a', attrs.get(u'a'))
    m.eq(got, body[2], 'line-ends:attribute', src)
    kids = u''.join(c for c in root.GetChildren() if isinstance(c, basestring))
    m.eq(kids, body[1], 'line-ends:content', src)
    m.count('line_ends')


FAMILIES = [
    Family('ends', fam_ends, 1500, 20000, need=dict(line_ends=1000)),
    Family('wf', fam_wf, 4000, 60000, need=dict(wellformed=1500)),
    Family('mutate', fam_mutate, 5000, 80000, need=dict(mutant_wf=300, mutant_refused=1500)),
    Family('broken', fam_broken, 1500, 8000, need=dict(constraints=800)),
    Family('valid', fam_valid, 3000, 40000, need=dict(valid=500, invalid=500)),
    Family('chars', fam_chars, 3000, 30000, need=dict(characters=2000)),
]
