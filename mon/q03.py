# -*- coding: utf-8 -*-
"""Q03 migrating QTI v1.2 items keeps their meaning

Items, sections and banks are generated from a model, written as QTI v1.2 in random layout and migrated by the real code into
a content package.  The files of the package are read by JAXP and compared with the model: reading order of texts, choices,
interactions and their limits, declarations, feedback and metadata.  The migrated item is loaded by the real QTI v2 engine and
the outcomes of random responses are compared with an independent evaluation of the v1 rules."""

import hashlib
import os
import random
import re
import shutil
import StringIO
import tempfile
from fractions import Fraction
from java.io import FileInputStream, ByteArrayInputStream
from javax.xml.parsers import DocumentBuilderFactory
from lib import Family
import pyslet.imsqtiv1p2p1 as v1
import pyslet.qtiv1.core as v1core
import pyslet.qtiv2.core as core
import pyslet.qtiv2.variables as variables
import pyslet.imsqtiv2p1 as qti
import pyslet.imscpv1p2 as imscp
import pyslet.rfc2396 as uri
import pyslet.html40_19991224 as html
import pyslet.xml20081126.structures as xml

PROPERTY = 'Q03'
NS2 = 'http://www.imsglobal.org/xsd/imsqti_v2p1'
REFUSED = (v1core.QTIError,)

FACTORY = DocumentBuilderFactory.newInstance()
FACTORY.setNamespaceAware(True)

WORDS = [u'alpha', u'beta', u'caf\xe9', u'1 < 2', u'a & b', u'"quoted"', u'it\'s', u'\u4e2d\u6587', u'x > y', u'which one', u'100%', u'end.', u'&amp;', u'<b>', u'two  spaces', u'the', u'capital of', u'\u03b1\u03b2']


def esc(s):
    return s.replace(u'&', u'&amp;').replace(u'<', u'&lt;').replace(u'>', u'&gt;')


def esca(s):
    return esc(s).replace(u'"', u'&quot;')


def fold(s):
    return u' '.join(s.split())


def bare(s):
    return u''.join(s.split())


def dom(path):
    b = FACTORY.newDocumentBuilder()
    b.setErrorHandler(None)
    f = FileInputStream(path)
    try:
        return b.parse(f).getDocumentElement()
    finally:
        f.close()


def kids(e, name=None):
    out = []
    c = e.getFirstChild()
    while c is not None:
        if c.getNodeType() == 1 and (name is None or c.getLocalName() == name):
            out.append(c)
        c = c.getNextSibling()
    return out


def attr(e, name):
    return e.getAttribute(name) if e.hasAttribute(name) else None


def alltext(e):
    return unicode(e.getTextContent())


# --- the generator -----------------------------------------------------------

class Gen(object):

    def __init__(self, r, images):
        self.r, self.images = r, images
        self.n = 0
        self.labelled = []

    def text(self):
        r = self.r
        self.n += 1
        return u' '.join([u't%d' % self.n] + [r.choice(WORDS) for i in range(r.choice([0, 1, 1, 2, 4]))])

    def things(self, inline=True, images=True, simple=False):
        """the mat... children of one material"""
        r = self.r
        out = []
        for i in range(r.choice([1, 1, 1, 2, 3])):
            c = r.random()
            if c < .55 or simple:
                out.append((u'text', self.text(), r.choice([None] * 4 + [u'fr']), r.random() < .25))
            elif c < .65:
                out.append((u'em', self.text()))
            elif c < .72 and out:
                out.append((u'br',))
            elif c < .9:
                frag = []
                if not inline and r.random() < .6:
                    for j in range(r.choice([1, 2])):
                        frag.append((r.choice([u'p', u'p', u'div', u'h2']), [(r.choice([None, None, u'i', u'sup']), self.text()) for k in range(r.choice([1, 2]))]))
                    out.append((u'block', frag))
                else:
                    frag = [(r.choice([None, u'i', u'b', u'sub', u'strong']), self.text()) for j in range(r.choice([1, 2, 3]))]
                    out.append((u'html', frag, r.random() < .3))
            elif images and self.images:
                out.append((u'img', r.choice(self.images), r.choice([None, (30, 20)])))
            else:
                out.append((u'text', self.text(), None, False))
        return out

    def ident(self, prefix, used):
        r = self.r
        while True:
            c = r.random()
            s = prefix + str(r.randint(1, 999))
            if c < .1:
                s = s + u' x'
            elif c < .2:
                s = u'%d-%s' % (r.randint(0, 9), s)
            elif c < .25:
                s = s + u':y'
            elif c < .3:
                s = s + u'.z_\xe9'
            k = re.sub(u'[^A-Za-z0-9\xe9]', u'', s)
            if k not in used:
                used.add(k)
                return s

    def labels(self, used, kind):
        r = self.r
        out = []
        for i in range(r.choice([1, 2, 3, 3, 4, 5])):
            l = {'ident': self.ident(u'L', used), 'shuffle': r.random() < .6, 'flow': r.random() < .4}
            if kind == 'choice':
                c = r.random()
                if c < .15:
                    l['pcdata'] = self.text()
                elif c < .25:
                    l['flowmat'] = [self.things() for j in range(r.choice([1, 2]))]
                else:
                    l['mat'] = [self.things() for j in range(r.choice([1, 1, 2]))]
            out.append(l)
        return out

    def response(self, used):
        r = self.r
        kind = r.choice(['choice'] * 5 + ['str', 'str', 'str', 'num', 'slider', 'numslider', 'hotspot', 'xy'])
        if kind in ('hotspot', 'xy') and not self.images:
            kind = 'choice'
        p = {'kind': kind, 'ident': self.ident(u'R', used), 'card': 'Single', 'before': [], 'inside': [], 'after': []}
        lu = set()
        if kind in ('choice', 'hotspot', 'slider') and r.random() < .45:
            p['card'] = 'Multiple'
        if kind not in ('xy', 'hotspot'):
            for k in ('before', 'inside', 'after'):
                if r.random() < .3 and not (k == 'inside' and kind in ('str', 'num', 'numslider', 'slider')):
                    p[k] = [self.things(inline=kind not in ('choice',) or r.random() < .7) for i in range(r.choice([1, 1, 2]))]
        if kind in ('str', 'num'):
            p['before'], p['after'] = p['before'][:1], p['after'][:1]
        if kind == 'choice':
            p['shuffle'] = r.random() < .5
            p['labels'] = self.labels(lu, 'choice')
            p['max'] = r.choice([None, None, 1, 2, 3]) if p['card'] == 'Multiple' else r.choice([None, 1])
            p['min'] = r.choice([None, None, 0, 1])
        elif kind in ('str', 'num'):
            p['numtype'] = r.choice([None, 'Integer', 'Decimal', 'Scientific']) if kind == 'num' else None
            p['rows'] = r.choice([None, None, 1, 3])
            p['cols'] = r.choice([None, 10, 25])
            p['maxchars'] = r.choice([None, 12])
            p['mixed'] = [self.things(images=False) for i in range(2)] if r.random() < .4 else None
        elif kind == 'slider':
            p['labels'] = self.labels(lu, 'choice')
            for l in p['labels']:
                l['flow'] = False
            p['min'] = r.choice([None, 1]) if p['card'] == 'Multiple' else None
            p['max'] = r.choice([None, 2]) if p['card'] == 'Multiple' else None
        elif kind == 'numslider':
            p['lo'] = r.randint(-5, 5)
            p['hi'] = p['lo'] + r.randint(2, 20)
            p['step'] = r.choice([None, 1, 2])
            p['start'] = r.choice([None, p['lo'] + 1])
            p['orient'] = r.choice([None, 'Horizontal', 'Vertical'])
            p['numtype'] = r.choice([None, 'Integer', 'Decimal'])
        elif kind in ('hotspot', 'xy'):
            p['img'] = r.choice(self.images)
            p['size'] = (r.randint(60, 200), r.randint(60, 200))
            p['labels'] = self.labels(lu, 'area')
            p['max'] = r.choice([None, 1, 3]) if p['card'] == 'Multiple' else None
            for l in p['labels']:
                l['flow'] = False
                l['area'] = self.area(p['size'])
                l['name'] = self.text() if r.random() < .25 else None
                l['lang'] = r.choice([None, u'de'])
        return p

    def area(self, size):
        r = self.r
        w, h = size
        k = r.choice(['Rectangle', 'Rectangle', 'Ellipse', 'Ellipse', 'Bounded'])
        x, y = r.randint(10, w - 20), r.randint(10, h - 20)
        if k == 'Bounded':
            pts = [(x, y), (x + r.randint(5, 18), y + r.randint(-5, 4)), (x + r.randint(2, 18), y + r.randint(5, 18))]
            if r.random() < .3:
                pts.append((x - r.randint(2, 9), y + r.randint(5, 9)))
            v = [c for q in pts for c in q]
        else:
            a = r.randint(2, 15)
            v = [x, y, a, a if r.random() < .4 else r.randint(2, 15)]
        return (k, v, r.choice([u',', u' ', u', ', u' ,']).join(str(c) for c in v))

    def blocks(self, used, depth=0):
        r = self.r
        out = []
        for i in range(r.choice([1, 2, 2, 3])):
            c = r.random()
            if c < .4:
                c = r.random()
                if c < .12 and self.labelled:
                    label, ts = r.choice(self.labelled)
                    out.append(('mat', ts, None, label))
                else:
                    ts = self.things(inline=r.random() < .7)
                    label = None
                    if c > .75:
                        label = u'M%d' % r.randint(1, 10 ** 9)
                        self.labelled.append((label, ts))
                    out.append(('mat', ts, label, None))
            elif c < .55 and depth < 2:
                out.append(('flow', r.choice([None, u'Block', u'cls']), self.blocks(used, depth + 1)))
            elif c < .9:
                out.append(('resp', self.response(used)))
            else:
                out.append(('mat', self.things(), None, None))
        return out


def responses(blocks):
    out = []
    for b in blocks:
        if b[0] == 'resp':
            out.append(b[1])
        elif b[0] == 'flow':
            out += responses(b[2])
    return out


# --- rules -------------------------------------------------------------------

VARTYPES = ['Integer', 'Integer', 'Decimal', 'Scientific', 'String', 'Boolean', 'Enumerated']


def gen_value(r, p):
    """a value for a response, as ('ids', [labels]) etc."""
    k = p['kind']
    if k in ('choice', 'slider', 'hotspot'):
        n = [i for i in range(len(p['labels']))]
        if p['card'] == 'Single':
            return [r.choice(n)]
        return sorted(r.sample(n, r.randint(0, len(n))))
    if k == 'str':
        return r.choice([u'Paris', u'paris', u'PARIS', u'Rome', u'10', u'caf\xe9', u'CAF\xc9', u'a b'])
    if k in ('num', 'numslider'):
        if p['numtype'] in (None, 'Integer'):
            return r.randint(-3, 4)
        return r.choice([-2.5, -1.0, 0.0, .5, 1.0, 1.5, 2.0, 3.25])
    if k == 'xy':
        return (r.randint(0, p['size'][0]), r.randint(0, p['size'][1]))


def gen_cond(r, resps, depth=0):
    c = r.random()
    if depth < 3 and c < .14:
        return ('not', gen_cond(r, resps, depth + 1))
    if depth < 3 and c < .32:
        return (r.choice(['and', 'or']), [gen_cond(r, resps, depth + 1) for i in range(r.choice([1, 2, 2, 3]))])
    if c < .36 or not resps:
        return ('other',)
    p = r.choice(resps)
    k = p['kind']
    if k == 'xy':
        l = r.choice(p['labels'])
        return ('inside', p, l['area'] if r.random() < .6 else Gen(r, []).area(p['size']))
    if k in ('choice', 'slider', 'hotspot'):
        return ('eq', p, r.choice(range(len(p['labels']))), r.random() < .5)
    if k == 'str':
        return ('eq', p, gen_value(r, p), r.random() < .5)
    return (r.choice(['eq', 'lt', 'lte', 'gt', 'gte']), p, gen_value(r, p), True)


def gen_rules(r, g, resps, used):
    decl = []
    for i in range(r.choice([1, 1, 2, 3])):
        t = r.choice(VARTYPES)
        d = {'name': g.ident(u'V', used) if i or r.random() < .5 else u'SCORE', 'type': t if r.random() < .9 or t != 'Integer' else None, 'default': None, 'min': None, 'max': None, 'cut': None}
        used.add(d['name'])
        if (t in ('Integer', 'Decimal', 'Scientific') and r.random() < .8) or r.random() < .4:
            d['default'] = {'Integer': '%d' % r.randint(-2, 9), 'Decimal': r.choice(['0.5', '2', '-1.25']), 'Scientific': r.choice(['1.5E1', '0']), 'String': r.choice(['none', 'a b']), 'Boolean': r.choice(['true', 'false']), 'Enumerated': r.choice(['low', 'high'])}[t]
        if t in ('Integer', 'Decimal') and r.random() < .3:
            d['min'], d['max'] = r.choice(['0', '-5']), r.choice(['10', '100'])
        if t in ('Integer', 'Decimal') and r.random() < .2:
            d['cut'] = r.choice(['5', '2.5'])
        d['t'] = t
        decl.append(d)
    fb = [{'ident': g.ident(u'F', used), 'title': r.choice([None, u'A title & more']), 'view': r.choice([None, u'All', u'Candidate']), 'mat': [g.things(inline=r.random() < .7) for j in range(r.choice([1, 2]))], 'flow': r.random() < .6} for i in range(r.choice([0, 1, 2, 3]))]
    conds = []
    for i in range(r.choice([1, 2, 3, 4, 5])):
        sets = []
        for j in range(r.choice([0, 1, 1, 1, 2])):
            d = r.choice(decl)
            t = d['t']
            if t in ('Integer', 'Decimal', 'Scientific'):
                a = r.choice([None, 'Set', 'Add', 'Add', 'Subtract', 'Multiply'] + (['Divide'] if t != 'Integer' else []))
                v = r.choice(['1', '2', '3', '-1', '5']) if t == 'Integer' or a == 'Divide' else r.choice(['1', '0.5', '-2', '2.25'])
            else:
                a = r.choice([None, 'Set'])
                v = {'String': r.choice([u'good', u'not bad', u'1 < 2']), 'Boolean': r.choice(['true', 'false']), 'Enumerated': r.choice(['low', 'mid'])}[t]
            sets.append((d, a, v, r.choice([u'', u' ', u'\n'])))
        disp = [r.choice(fb) for j in range(r.choice([0, 0, 1, 1, 2]))] if fb else []
        conds.append({'continue': r.random() < .45, 'title': r.choice([None, u'c%d' % i]), 'cond': [gen_cond(r, resps) for j in range(r.choice([1, 1, 1, 2, 3]))], 'set': sets, 'disp': disp})
    return {'decl': decl, 'fb': fb, 'conds': conds}


def gen_item(r, images, n=0):
    g = Gen(r, images)
    used = set()
    it = {'ident': g.ident(u'item', set()), 'title': r.choice([None, u'A title', u'T\xeftre & <more>']), 'label': r.choice([None, None, u'lab']), 'lang': r.choice([None, None, u'en-GB']), 'plabel': r.choice([None, None, u'pl'])}
    it['comment'] = g.text() if r.random() < .2 else None
    it['meta'] = {}
    if r.random() < .4:
        for f, n in (('keywords', 2), ('description', 1), ('topic', 1), ('title', 1), ('toolvendor', 1), ('status', 1), ('levelofdifficulty', 1)):
            if r.random() < .4:
                v = {'keywords': u'%s, %s' % (u'key one', u'key2'), 'status': r.choice([u'Draft', u'Normal']), 'levelofdifficulty': r.choice([u'easy', u'very difficult', u'School'])}.get(f) or g.text()
                it['meta'][f] = (v, r.random() < .5)
    it['objectives'] = [(r.choice([u'All', u'Candidate', u'Author', u'Tutor']), g.things(simple=True)) for i in range(r.choice([0, 0, 0, 1]))]
    it['rubric'] = [(r.choice([u'All', u'Candidate', u'Scorer']), g.things()) for i in range(r.choice([0, 0, 0, 1]))]
    it['body'] = g.blocks(used)
    it['rules'] = gen_rules(r, g, responses(it['body']), used) if r.random() < .85 else None
    return it


# --- writing v1 --------------------------------------------------------------

def w_thing(t, r):
    if t[0] == u'text':
        s = esc(t[1]) if r.random() < .7 else u'<![CDATA[%s]]>' % t[1]
        return u'<mattext%s%s>%s</mattext>' % (u' texttype="text/plain"' if t[3] else u'', u' xml:lang="%s"' % t[2] if t[2] else u'', s)
    if t[0] == u'em':
        return u'<matemtext>%s</matemtext>' % esc(t[1])
    if t[0] == u'br':
        return u'<matbreak/>'
    if t[0] == u'img':
        return u'<matimage imagtype="image/gif" uri="%s"%s/>' % (t[1], u' width="%d" height="%d"' % t[2] if t[2] else u'')
    if t[0] == u'html':
        s = u' '.join(esc(x) if tag is None else u'<%s>%s</%s>' % (tag, esc(x), tag) for tag, x in t[1])
        return u'<mattext texttype="text/html">%s</mattext>' % (u'<![CDATA[%s]]>' % s if t[2] else esc(s))
    s = u''.join(u'<%s>%s</%s>' % (tag, u' '.join(esc(x) if i is None else u'<%s>%s</%s>' % (i, esc(x), i) for i, x in c), tag) for tag, c in t[1])
    return u'<mattext texttype="text/html"><![CDATA[%s]]></mattext>' % s


def w_mat(things, r, label=None):
    return u'<material%s>%s</material>' % (u' label="%s"' % label if label else u'', u''.join(w_thing(t, r) for t in things))


def yes(b):
    return u'Yes' if b else u'No'


def w_label(l, r, area=False):
    a = u'ident="%s"' % esca(l['ident'])
    if not l['shuffle'] or r.random() < .5:
        a += u' rshuffle="%s"' % yes(l['shuffle'])
    if area:
        if l['area'][0] != 'Ellipse' or r.random() < .6:
            a += u' rarea="%s"' % l['area'][0]
        c = esc(l['area'][2])
        if l['name']:
            c += u'<material><mattext%s>%s</mattext></material>' % (u' xml:lang="%s"' % l['lang'] if l['lang'] else u'', esc(l['name']))
    elif 'pcdata' in l:
        c = esc(l['pcdata'])
    elif 'flowmat' in l:
        c = u'<flow_mat>%s</flow_mat>' % u''.join(w_mat(x, r) for x in l['flowmat'])
    else:
        c = u''.join(w_mat(x, r) for x in l['mat'])
    s = u'<response_label %s>%s</response_label>' % (a, c)
    return u'<flow_label>%s</flow_label>' % s if l['flow'] else s


def w_resp(p, r):
    k = p['kind']
    el = {'choice': 'response_lid', 'slider': 'response_lid', 'hotspot': 'response_lid', 'str': 'response_str', 'num': 'response_num', 'numslider': 'response_num', 'xy': 'response_xy'}[k]
    a = u'ident="%s" rcardinality="%s"' % (esca(p['ident']), p['card'])
    if p.get('numtype'):
        a += u' numtype="%s"' % p['numtype']
    before = u''.join(w_mat(x, r) for x in p['before'])
    after = u''.join(w_mat(x, r) for x in p['after'])
    inside = u''.join(w_mat(x, r) for x in p['inside'])
    opt = lambda **kw: u''.join(u' %s="%s"' % (n, v) for n, v in sorted(kw.items()) if v is not None)
    if k == 'choice':
        render = u'<render_choice%s>%s%s</render_choice>' % (opt(shuffle=yes(p['shuffle']) if p['shuffle'] or r.random() < .5 else None, minnumber=p['min'], maxnumber=p['max']), inside, u''.join(w_label(l, r) for l in p['labels']))
    elif k in ('str', 'num'):
        lab = u'<response_label ident="A"/>'
        if p['mixed']:
            lab = w_mat(p['mixed'][0], r) + lab + w_mat(p['mixed'][1], r)
        render = u'<render_fib%s>%s</render_fib>' % (opt(rows=p['rows'], columns=p['cols'], maxchars=p['maxchars']), lab)
    elif k == 'slider':
        render = u'<render_slider lowerbound="1" upperbound="%d"%s>%s</render_slider>' % (len(p['labels']), opt(minnumber=p['min'], maxnumber=p['max']), u''.join(w_label(l, r) for l in p['labels']))
    elif k == 'numslider':
        render = u'<render_slider lowerbound="%d" upperbound="%d"%s/>' % (p['lo'], p['hi'], opt(step=p['step'], startval=p['start'], orientation=p['orient']))
    else:
        render = u'<render_hotspot%s><material><matimage imagtype="image/gif" uri="%s" width="%d" height="%d"/></material>%s</render_hotspot>' % (opt(maxnumber=p['max']), p['img'], p['size'][0], p['size'][1], u''.join(w_label(l, r, True) for l in p['labels']))
    return u'<%s %s>%s%s%s</%s>' % (el, a, before, render, after, el)


def w_blocks(blocks, r):
    out = []
    for b in blocks:
        if b[0] == 'mat':
            out.append(u'<material_ref linkrefid="%s"/>' % b[3] if b[3] else w_mat(b[1], r, b[2]))
        elif b[0] == 'flow':
            out.append(u'<flow%s>%s</flow>' % (u' class="%s"' % b[1] if b[1] else u'', w_blocks(b[2], r)))
        else:
            out.append(w_resp(b[1], r))
    return u'\n'.join(out)


def w_cond(c, r):
    if c[0] == 'not':
        return u'<not>%s</not>' % w_cond(c[1], r)
    if c[0] in ('and', 'or'):
        return u'<%s>%s</%s>' % (c[0], u''.join(w_cond(x, r) for x in c[1]), c[0])
    if c[0] == 'other':
        return u'<other/>'
    p = c[1]
    a = u'respident="%s"' % esca(p['ident'])
    if c[0] == 'inside':
        return u'<varinside %s areatype="%s">%s</varinside>' % (a, c[2][0], esc(c[2][2]))
    if p['kind'] in ('choice', 'slider', 'hotspot'):
        v = p['labels'][c[2]]['ident']
    else:
        v = c[2] if isinstance(c[2], unicode) else unicode(c[2])
    if c[0] == 'eq' and (c[3] or r.random() < .5):
        a += u' case="%s"' % yes(c[3])
    return u'<var%s %s>%s</var%s>' % ({'eq': 'equal'}.get(c[0], c[0]), a, esc(v), {'eq': 'equal'}.get(c[0], c[0]))


def w_item(it, r):
    opt = lambda **kw: u''.join(u' %s="%s"' % (n, esca(v)) for n, v in sorted(kw.items()) if v is not None)
    s = [u'<item ident="%s"%s%s>' % (esca(it['ident']), opt(title=it['title'], label=it['label']), u' xml:lang="%s"' % it['lang'] if it['lang'] else u'')]
    if it['comment']:
        s.append(u'<qticomment>%s</qticomment>' % esc(it['comment']))
    if it['meta']:
        old = [(k, v[0]) for k, v in sorted(it['meta'].items()) if v[1]]
        new = [(k, v[0]) for k, v in sorted(it['meta'].items()) if not v[1]]
        order = ['levelofdifficulty', 'status', 'toolvendor', 'topic', 'description', 'keywords', 'title']
        old.sort(key=lambda x: order.index(x[0]))
        s.append(u'<itemmetadata>')
        if new:
            s.append(u'<qtimetadata>%s</qtimetadata>' % u''.join(u'<qtimetadatafield><fieldlabel>%s</fieldlabel><fieldentry>%s</fieldentry></qtimetadatafield>' % (r.choice([u'qmd_', u'']) + k, esc(v)) for k, v in new))
        s.append(u''.join(u'<qmd_%s>%s</qmd_%s>' % (k, esc(v), k) for k, v in old) + u'</itemmetadata>')
    for view, t in it['objectives']:
        s.append(u'<objectives view="%s">%s</objectives>' % (view, w_mat(t, r)))
    for view, t in it['rubric']:
        s.append(u'<rubric view="%s">%s</rubric>' % (view, w_mat(t, r)))
    s.append(u'<presentation%s>%s</presentation>' % (opt(label=it['plabel']), w_blocks(it['body'], r)))
    R = it['rules']
    if R:
        s.append(u'<resprocessing><outcomes>')
        for d in R['decl']:
            s.append(u'<decvar%s/>' % opt(varname=d['name'] if d['name'] != u'SCORE' or r.random() < .7 else None, vartype=d['type'], defaultval=d['default'], minvalue=d['min'], maxvalue=d['max'], cutvalue=d['cut']))
        s.append(u'</outcomes>')
        for c in R['conds']:
            s.append(u'<respcondition%s>' % opt(**{'continue': yes(c['continue']) if c['continue'] or r.random() < .5 else None, 'title': c['title']}))
            s.append(u'<conditionvar>%s</conditionvar>' % u''.join(w_cond(x, r) for x in c['cond']))
            for d, a, v, sp in c['set']:
                s.append(u'<setvar%s>%s%s%s</setvar>' % (opt(varname=d['name'] if d['name'] != u'SCORE' or r.random() < .7 else None, action=a), sp, esc(v), sp))
            for f in c['disp']:
                s.append(u'<displayfeedback feedbacktype="Response" linkrefid="%s"/>' % esca(f['ident']))
            s.append(u'</respcondition>')
        s.append(u'</resprocessing>')
        for f in R['fb']:
            m = u''.join(w_mat(t, r) for t in f['mat'])
            s.append(u'<itemfeedback%s>%s</itemfeedback>' % (opt(ident=f['ident'], title=f['title'], view=f['view']), u'<flow_mat>%s</flow_mat>' % m if f['flow'] else m))
    s.append(u'</item>')
    return r.choice([u'', u'\n']).join(s)


# --- what a reader must find in the v2 item ------------------------------------

INLINE = ('i', 'b', 'sub', 'sup', 'strong', 'em')


def x_things(ts):
    out = []
    for t in ts:
        if t[0] == u'text':
            out.append(('T', bare(t[1])))
        elif t[0] == u'em':
            out.append(('E', 'em', bare(t[1])))
        elif t[0] == u'img':
            out.append(('IMG', t[1]))
        elif t[0] == u'html':
            out += [('E', tag, bare(x)) if tag else ('T', bare(x)) for tag, x in t[1]]
        elif t[0] == u'block':
            for tag, c in t[1]:
                out += [('E', i, bare(x)) if i else ('T', bare(x)) for i, x in c]
    return out


def texts_of(ts):
    out = []
    for t in ts:
        if t[0] in (u'text', u'em'):
            out.append(t[1])
        elif t[0] == u'html':
            out += [x for tag, x in t[1]]
        elif t[0] == u'block':
            out += [x for tag, c in t[1] for i, x in c]
    return out


def x_label(l):
    if 'pcdata' in l:
        return [('T', bare(l['pcdata']))]
    return [x for ts in l.get('mat', l.get('flowmat', ())) for x in x_things(ts)]


def x_resp(p):
    k = p['kind']
    mats = lambda a: [x for ts in a for x in x_things(ts)]
    out = mats(p['before']) + mats(p['inside'])
    if k in ('str', 'num'):
        mid = [('FIELD', p['ident'])]
        if p['mixed']:
            mid = x_things(p['mixed'][0]) + mid + x_things(p['mixed'][1])
        out += mid
    else:
        out.append(('FIELD', p['ident']))
        if k in ('choice', 'slider'):
            for l in p['labels']:
                out.append(('CHOICE', l['ident']))
                out += x_label(l)
                out.append(('END',))
        elif k == 'hotspot':
            for l in p['labels']:
                out += [('CHOICE', l['ident']), ('END',)]
    return out + mats(p['after'])


def x_blocks(blocks):
    out = []
    for b in blocks:
        if b[0] == 'mat':
            out += x_things(b[1])
        elif b[0] == 'flow':
            out += x_blocks(b[2])
        else:
            out += x_resp(b[1])
    return out


def merge(tokens):
    """adjacent texts of one kind are one"""
    out = []
    for t in tokens:
        if t[0] == 'T' and out and out[-1][0] == 'T':
            out[-1] = ('T', out[-1][1] + t[1])
        elif t[0] == 'T' and not t[1]:
            pass
        else:
            out.append(t)
    return out


INTERACTIONS = ('choiceInteraction', 'textEntryInteraction', 'extendedTextInteraction', 'sliderInteraction', 'hotspotInteraction', 'selectPointInteraction')


class Reader(object):
    """Tokens of an item body, in reading order"""

    def __init__(self):
        self.out, self.fields, self.faults, self.choices = [], [], [], []

    def walk(self, e, inline=False):
        c = e.getFirstChild()
        while c is not None:
            if c.getNodeType() in (3, 4):
                self.out.append(('T', bare(unicode(c.getData()))))
                if bare(unicode(c.getData())) and e.getLocalName() in ('itemBody',):
                    self.faults.append('text directly in %s' % e.getLocalName())
            elif c.getNodeType() == 1:
                self.element(c, inline)
            c = c.getNextSibling()

    def element(self, c, inline):
        n = c.getLocalName()
        if c.getNamespaceURI() != NS2:
            self.faults.append('%s in namespace %s' % (n, c.getNamespaceURI()))
        if n in INTERACTIONS:
            self.interaction(c, n, inline)
        elif n in ('p', 'div', 'h2', 'rubricBlock'):
            if inline:
                self.faults.append('block %s in inline context' % n)
            self.walk(c, n in ('p', 'h2'))
        elif n in INLINE:
            self.out.append(('E', n, bare(alltext(c))))
        elif n == 'span':
            self.walk(c, True)
        elif n == 'br':
            pass
        elif n == 'img':
            self.out.append(('IMG', c.getAttribute('src')))
        else:
            self.faults.append('unexpected element %s' % n)

    def interaction(self, c, n, inline):
        f = {'kind': n, 'id': attr(c, 'responseIdentifier'), 'el': c, 'choices': []}
        self.fields.append(f)
        if inline and n != 'textEntryInteraction':
            self.faults.append('%s in inline context' % n)
        if n == 'textEntryInteraction' and c.getParentNode().getLocalName() == 'itemBody':
            self.faults.append('textEntryInteraction in block context')
        ks = kids(c)
        for i, k in enumerate(ks):
            if k.getLocalName() == 'prompt':
                if i:
                    self.faults.append('prompt is not the first child')
                self.walk(k, True)
        self.out.append(('FIELD', len(self.fields) - 1))
        for k in ks:
            m = k.getLocalName()
            if m == 'simpleChoice':
                f['choices'].append(k)
                self.out.append(('CHOICE', attr(k, 'identifier')))
                self.walk(k)
                self.out.append(('END',))
            elif m == 'hotspotChoice':
                f['choices'].append(k)
                self.out += [('CHOICE', attr(k, 'identifier')), ('END',)]
            elif m == 'object':
                f['object'] = k
            elif m != 'prompt':
                self.faults.append('unexpected %s in %s' % (m, n))


NCNAME = re.compile(u'^[A-Za-z_\xe9][A-Za-z0-9_.\xe9-]*$')


COPY = re.compile(u'_[0-9A-F]{1,8}[.]gif')


def plain(s):
    """name of an image as it was: a second copy in a package has a suffix"""
    return COPY.sub(u'.gif', s.split(u'/')[-1])


def check_body(m, it, el, ctx):
    bodies = kids(el, 'itemBody')
    m.eq(len(bodies), 1, 'number of item bodies', ctx)
    rd = Reader()
    rd.walk(bodies[0])
    m.eq(rd.faults, [], 'body structure', ctx)
    want = []
    for view, t in it['objectives']:
        if view != u'All':
            want += x_things(t)
    for view, t in it['rubric']:
        want += x_things(t)
    want += x_blocks(it['body'])
    hot = set(p['img'] for p in responses(it['body']) if p['kind'] in ('hotspot', 'xy'))
    drop = lambda ts: merge([t for t in ts if not (t[0] == 'IMG' and plain(t[1]) in hot)])
    got = drop(rd.out)
    want = drop(want)
    shape = lambda ts: [(t[0],) + ((t[1],) if t[0] == 'T' else (plain(t[1]),) if t[0] == 'IMG' else t[1:] if t[0] == 'E' else ()) for t in ts]
    m.eq(shape(got), shape(want), 'reading order of the body', ctx)
    if shape(got) != shape(want):
        return None
    m.count('body_tokens', len(got))
    names = {}
    for g, w in zip(got, want):
        if g[0] == 'FIELD':
            f = rd.fields[g[1]]
            names[('R', w[1])] = f
        elif g[0] == 'CHOICE':
            m.check(bool(NCNAME.match(g[1] or u'')), 'identifier of a choice', g, ctx)
            if NCNAME.match(w[1]):
                m.eq(g[1], w[1], 'identifier of a choice', ctx)
            # within one interaction
    whole = fold(alltext(bodies[0]))
    for t in [x for v, ts in it['rubric'] for x in texts_of(ts)] + body_texts(it['body']):
        m.check(fold(t) in whole, 'words of a text run together', t, whole, ctx)
    return names


def body_texts(blocks):
    out = []
    for b in blocks:
        if b[0] == 'mat':
            out += texts_of(b[1])
        elif b[0] == 'flow':
            out += body_texts(b[2])
        else:
            p = b[1]
            for ts in p['before'] + p['inside'] + p['after'] + (p.get('mixed') or []):
                out += texts_of(ts)
            if p['kind'] in ('choice', 'slider'):
                for l in p['labels']:
                    out += [l['pcdata']] if 'pcdata' in l else [x for ts in l.get('mat', l.get('flowmat', ())) for x in texts_of(ts)]
    return out


def area_in(area, x, y):
    """None near the edge, else whether the point is in the v1 area"""
    k, v, txt = area
    if k == 'Rectangle':
        a, b, h, w = v
        if a < x < a + w - 1 and b < y < b + h - 1:
            return True
        return False if x < a or y < b or x > a + w or y > b + h else None
    if k == 'Ellipse':
        a, b, dx, dy = v
        f = lambda rx, ry: (x - a) ** 2 * ry * ry + (y - b) ** 2 * rx * rx <= rx * rx * ry * ry
        if dx // 2 > 1 and dy // 2 > 1 and f(dx // 2 - 1, dy // 2 - 1):
            return True
        return None if f(dx // 2 + 1, dy // 2 + 1) else False
    pts = [(v[i], v[i + 1]) for i in range(0, len(v), 2)]
    n = len(pts)
    inside = False
    for i in range(n):
        (x1, y1), (x2, y2) = pts[i], pts[(i + 1) % n]
        dx, dy = x2 - x1, y2 - y1
        t = 0 if dx == dy == 0 else max(0, min(1, Fraction((x - x1) * dx + (y - y1) * dy, dx * dx + dy * dy)))
        if (x - x1 - t * dx) ** 2 + (y - y1 - t * dy) ** 2 <= 2:
            return None
        if (y1 > y) != (y2 > y) and x < Fraction((x2 - x1) * (y - y1), y2 - y1) + x1:
            inside = not inside
    return inside


def shape_in(shape, coords, x, y):
    if shape == 'rect':
        return coords[0] <= x <= coords[2] and coords[1] <= y <= coords[3]
    if shape == 'circle':
        return (x - coords[0]) ** 2 + (y - coords[1]) ** 2 <= coords[2] ** 2
    if shape == 'ellipse':
        return (x - coords[0]) ** 2 * coords[3] ** 2 + (y - coords[1]) ** 2 * coords[2] ** 2 <= (coords[2] * coords[3]) ** 2
    pts = [(coords[i], coords[i + 1]) for i in range(0, len(coords) - 1, 2)]
    inside = False
    for i in range(len(pts)):
        (x1, y1), (x2, y2) = pts[i], pts[(i + 1) % len(pts)]
        if (y1 > y) != (y2 > y) and x < Fraction((x2 - x1) * (y - y1), y2 - y1) + x1:
            inside = not inside
    return inside


def check_field(m, p, f, decls, r, ctx):
    """one interaction against its v1 response"""
    k = p['kind']
    e = f['el']
    want = {'choice': 'choiceInteraction', 'slider': 'choiceInteraction', 'num': None, 'str': None, 'numslider': 'sliderInteraction', 'hotspot': 'hotspotInteraction', 'xy': 'selectPointInteraction'}[k]
    if want:
        m.eq(f['kind'], want, 'kind of interaction', ctx)
    else:
        m.check(f['kind'] in ('textEntryInteraction', 'extendedTextInteraction'), 'kind of interaction', f['kind'], ctx)
    if NCNAME.match(p['ident']):
        m.eq(f['id'], p['ident'], 'response identifier', ctx)
    m.check(f['id'] in decls, 'response is not declared', f['id'], ctx)
    d = decls.get(f['id'])
    if d is None:
        return
    m.eq(attr(d, 'cardinality'), p['card'].lower(), 'cardinality of a response', ctx)
    base = {'choice': 'identifier', 'slider': 'identifier', 'hotspot': 'identifier', 'str': 'string', 'xy': 'point'}.get(k) or ('integer' if p['numtype'] in (None, 'Integer') else 'float')
    m.eq(attr(d, 'baseType'), base, 'base type of a response', ctx)
    if k in ('choice', 'slider', 'hotspot'):
        n = len(p['labels'])
        ids = [attr(c, 'identifier') for c in f['choices']]
        m.eq(len(ids), n, 'number of choices', ctx)
        m.eq(len(set(ids)), n, 'identifiers of the choices', ids, ctx)
        mx = int(attr(e, 'maxChoices') or 1)
        if k == 'slider':
            most = 1 if p['card'] == 'Single' else p['max'] or n
        else:
            most = p['max'] if p['max'] is not None else (1 if p['card'] == 'Single' else n)
        if p['max'] is None and p['card'] == 'Multiple':
            m.check(mx == 0 or mx >= most, 'limit on the choices', mx, most, ctx)
            m.count('unlimited')
        else:
            m.eq(mx, most, 'limit on the choices', ctx)
        if k == 'choice':
            m.eq(attr(e, 'minChoices') or '0', str(p['min'] or 0), 'least number of choices', ctx)
            m.eq(attr(e, 'shuffle'), 'true' if p['shuffle'] else 'false', 'shuffle', ctx)
            if p['shuffle']:
                m.eq([attr(c, 'fixed') or 'false' for c in f['choices']], ['false' if l['shuffle'] else 'true' for l in p['labels']], 'fixed choices', ctx)
                m.count('shuffled')
    if k == 'numslider':
        m.eq((float(attr(e, 'lowerBound')), float(attr(e, 'upperBound'))), (float(p['lo']), float(p['hi'])), 'bounds of a slider', ctx)
        m.eq(attr(e, 'step'), None if p['step'] is None else str(p['step']), 'step of a slider', ctx)
        m.eq(attr(e, 'orientation') or 'horizontal', (p['orient'] or 'Horizontal').lower(), 'orientation of a slider', ctx)
        dv = [alltext(v) for x in kids(d, 'defaultValue') for v in kids(x, 'value')]
        m.eq([float(v) for v in dv], [] if p['start'] is None else [float(p['start'])], 'start of a slider', ctx)
    if k in ('str', 'num'):
        el = attr(e, 'expectedLength')
        w = p['maxchars'] if p['maxchars'] is not None else p['rows'] * p['cols'] if p['rows'] is not None and p['cols'] is not None else None
        m.eq(el, None if w is None else str(w), 'expected length', ctx)
        if f['kind'] == 'extendedTextInteraction':
            m.eq(attr(e, 'expectedLines'), str(p['rows']), 'expected lines', ctx)
            m.count('extended')
        else:
            m.count('text_entry')
    if k in ('hotspot', 'xy'):
        o = f.get('object')
        m.check(o is not None, 'image of a hotspot', ctx)
        if o is not None:
            m.eq((plain(attr(o, 'data')), attr(o, 'width'), attr(o, 'height')), (p['img'], str(p['size'][0]), str(p['size'][1])), 'image of a hotspot', ctx)
    if k == 'hotspot':
        for l, c in zip(p['labels'], f['choices']):
            coords = [int(x) for x in attr(c, 'coords').split(',')]
            bad = None
            for i in range(40):
                x, y = l['area'][1][0] + r.randint(-20, 20), l['area'][1][1] + r.randint(-20, 20)
                w = area_in(l['area'], x, y)
                if w is not None:
                    m.count('points')
                    if shape_in(attr(c, 'shape'), coords, x, y) != w:
                        bad = (x, y, w)
            m.check(bad is None, 'area of a hotspot', bad, l['area'], attr(c, 'shape'), coords, ctx)
            m.eq(attr(c, 'hotspotLabel'), fold(l['name']) if l['name'] else None, 'label of a hotspot', ctx) if not l['name'] or fold(l['name']) == l['name'] else None
    m.count('field_' + k)


def check_order(m, el, ctx):
    order = ['responseDeclaration', 'outcomeDeclaration', 'templateDeclaration', 'templateProcessing', 'stylesheet', 'itemBody', 'responseProcessing', 'modalFeedback']
    ns = [k.getLocalName() for k in kids(el)]
    m.check(all(n in order for n in ns) and [order.index(n) for n in ns] == sorted(order.index(n) for n in ns), 'order of the parts of an item', ns, ctx)


# --- scoring -------------------------------------------------------------------

def k_cond(c, answers):
    """value of a condition: True, False or None"""
    if c[0] == 'not':
        v = k_cond(c[1], answers)
        return None if v is None else not v
    if c[0] in ('and', 'or'):
        vs = [k_cond(x, answers) for x in c[1]]
        stop = c[0] == 'or'
        return stop if stop in vs else None if None in vs else not stop
    if c[0] == 'other':
        return True
    p = c[1]
    a = answers.get(p['ident'])
    if a is None or a == []:
        return None
    if c[0] == 'inside':
        return area_in(c[2], *a)
    if p['kind'] in ('choice', 'slider', 'hotspot'):
        return c[2] in a
    if p['kind'] == 'str':
        return a == c[2] if c[3] else a.lower() == c[2].lower()
    return {'eq': a == c[2], 'lt': a < c[2], 'lte': a <= c[2], 'gt': a > c[2], 'gte': a >= c[2]}[c[0]]


def near_edge(c, answers):
    if c[0] == 'not':
        return near_edge(c[1], answers)
    if c[0] in ('and', 'or'):
        return any(near_edge(x, answers) for x in c[1])
    return c[0] == 'inside' and answers.get(c[1]['ident']) is not None and area_in(c[2], *answers[c[1]['ident']]) is None


def parse_num(t, s):
    return int(s) if t == 'Integer' else float(s)


def v1_score(rules, answers):
    vals = {}
    for d in rules['decl']:
        t, s = d['t'], d['default']
        if t in ('Integer', 'Decimal', 'Scientific'):
            vals[d['name']] = parse_num(t, s) if s is not None else parse_num(t, '0')
        elif t == 'Boolean':
            vals[d['name']] = None if s is None else s == 'true'
        else:
            vals[d['name']] = s
    shown = []
    trace = []
    for c in rules['conds']:
        vs = [k_cond(x, answers) for x in c['cond']]
        if all(v is True for v in vs):
            trace.append(True)
            for d, a, v, sp in c['set']:
                t = d['t']
                if t in ('Integer', 'Decimal', 'Scientific'):
                    v = parse_num(t, v)
                    o = vals[d['name']]
                    if a == 'Add':
                        v = o + v
                    elif a == 'Subtract':
                        v = o - v
                    elif a == 'Multiply':
                        v = o * v
                    elif a == 'Divide':
                        v = o / v
                elif t == 'Boolean':
                    v = v == 'true'
                vals[d['name']] = v
            shown += [f['ident'] for f in c['disp']]
            if not c['continue']:
                break
        else:
            trace.append(False)
    return vals, shown, trace


def run_v2(path, answers, fields):
    """outcomes of the migrated item"""
    doc = core.QTIDocument(baseURI=str(uri.URIFactory.URLFromPathname(path)))
    doc.Read()
    out = []
    for a in answers:
        st = variables.ItemSessionState(doc.root)
        st.BeginSession()
        try:
            st.BeginAttempt()
        except NotImplementedError:
            # rendering, the last step, is not available for all interactions
            pass
        for n, v in a:
            st[n].SetValue(v)
        if doc.root.ResponseProcessing:
            doc.root.ResponseProcessing.Run(st)
        out.append(st)
    return doc, out


def check_rules(m, it, el, names, path, r, ctx):
    R = it['rules']
    resps = responses(it['body'])
    if R is None:
        m.eq(len(kids(el, 'responseProcessing')), 0, 'rules from nowhere', ctx)
        return
    outs = dict((attr(d, 'identifier'), d) for d in kids(el, 'outcomeDeclaration'))
    vmap = {}
    free = [n for n in outs if n != 'FEEDBACK']
    for d in R['decl']:
        if d['name'] in outs:
            vmap[d['name']] = d['name']
            free.remove(d['name'])
    for d in R['decl']:
        if d['name'] not in vmap:
            c = [n for n in free if bareid(n) == bareid(d['name'])]
            m.eq(len(c), 1, 'declaration of an outcome', d['name'], sorted(outs), ctx)
            if len(c) != 1:
                return
            vmap[d['name']] = c[0]
            free.remove(c[0])
    m.eq(free, [], 'outcomes from nowhere', ctx)
    for d in R['decl']:
        e = outs[vmap[d['name']]]
        m.eq(attr(e, 'baseType'), {'Integer': 'integer', 'Decimal': 'float', 'Scientific': 'float', 'String': 'string', 'Boolean': 'boolean', 'Enumerated': 'identifier'}[d['t']], 'type of an outcome', ctx)
        fl = lambda x: None if x is None else float(x)
        m.eq([fl(attr(e, n)) for n in ('normalMinimum', 'normalMaximum', 'masteryValue')], [fl(d[n]) for n in ('min', 'max', 'cut')], 'limits of an outcome', ctx)
    # feedback
    fbs = kids(el, 'modalFeedback')
    m.eq(len(fbs), len(R['fb']), 'number of feedback blocks', ctx)
    fmap = {}
    for f, e in zip(R['fb'], fbs):
        fmap[f['ident']] = attr(e, 'identifier')
        m.eq((attr(e, 'outcomeIdentifier'), attr(e, 'showHide')), ('FEEDBACK', 'show'), 'feedback control', ctx)
        m.check(bool(NCNAME.match(attr(e, 'identifier') or u'')), 'identifier of feedback', attr(e, 'identifier'), ctx)
        m.eq(attr(e, 'title'), f['title'], 'title of feedback', ctx)
        rd = Reader()
        rd.walk(e)
        m.eq(rd.faults, [], 'structure of feedback', ctx)
        strip = lambda ts: merge([t if t[0] != 'IMG' else ('IMG', plain(t[1])) for t in ts])
        m.eq(strip(rd.out), strip([x for ts in f['mat'] for x in x_things(ts)]), 'text of feedback', ctx)
        m.count('feedback')
    # responses
    cases = []
    for i in range(12):
        ans = {}
        for p in resps:
            if r.random() < .9:
                ans[p['ident']] = gen_value(r, p)
            elif p['kind'] == 'numslider' and p['start'] is not None:
                # where the slider stands
                ans[p['ident']] = p['start'] if p['numtype'] in (None, 'Integer') else float(p['start'])
        if any(near_edge(x, ans) for c in R['conds'] for x in c['cond']):
            m.count('edge_skipped')
            continue
        cases.append(ans)
    v2 = []
    for ans in cases:
        one = []
        for p in resps:
            v = ans.get(p['ident'])
            f = names[('R', p['ident'])]
            if v is None:
                continue
            if p['kind'] in ('choice', 'slider', 'hotspot'):
                ids = [attr(f['choices'][i], 'identifier') for i in v]
                one.append((f['id'], ids[0] if p['card'] == 'Single' else ids or None))
            else:
                one.append((f['id'], v))
        v2.append(one)
    doc, states = run_v2(path, v2, names)
    for ans, st in zip(cases, states):
        vals, shown, trace = v1_score(R, ans)
        m.count('scored')
        m.count('rules_true', sum(trace))
        if trace and trace[-1] and len(trace) < len(R['conds']):
            m.count('stopped')
        if sum(trace) > 1:
            m.count('continued')
        for d in R['decl']:
            v = st[vmap[d['name']]].value
            w = vals[d['name']]
            if isinstance(v, float) and isinstance(w, float):
                ok = abs(v - w) <= 1e-9 * max(1, abs(w))
            else:
                ok = v == w and isinstance(v, bool) == isinstance(w, bool)
            m.check(ok, 'score', d['name'], v, w, ans, ctx)
        if 'FEEDBACK' in outs:
            v = st['FEEDBACK'].value
            got = sorted(k for k, n in (v or {}).items() for j in range(n)) if v else []
            m.eq(sorted(set(got)), sorted(set(fmap[x] for x in shown)), 'feedback shown', ans, ctx)
        else:
            m.eq(shown, [], 'feedback shown', ans, ctx)


def bareid(s):
    return re.sub(u'[^A-Za-z0-9\xe9]', u'', s)


# --- packages ------------------------------------------------------------------

class Work(object):

    def __init__(self, r):
        self.top = tempfile.mkdtemp('q03', dir=os.environ['VERIF_WORK'])
        self.old = tempfile.tempdir
        tempfile.tempdir = self.top
        self.src = os.path.join(self.top, 'src')
        os.mkdir(self.src)
        self.images = {}
        for i in range(r.choice([0, 1, 2, 3])):
            n = u'img%d.gif' % i
            self.images[n] = 'GIF89a' + ''.join(chr(r.randint(0, 255)) for j in range(30))
            f = open(os.path.join(self.src, n), 'wb')
            f.write(self.images[n])
            f.close()
        self.cp = imscp.ContentPackage()

    def close(self):
        self.cp.Close()
        tempfile.tempdir = self.old
        shutil.rmtree(self.top)

    def doc(self, s, name='quiz.xml'):
        p = os.path.join(self.src, name)
        f = open(p, 'wb')
        f.write(s.encode('utf-8'))
        f.close()
        d = v1.QTIDocument(baseURI=str(uri.URIFactory.URLFromPathname(p)))
        d.Read()
        return d


def migrate(w, doc, m):
    res = doc.MigrateV2(w.cp)
    root = dom(os.path.join(str(w.cp.dPath), 'imsmanifest.xml'))
    rs = [x for c in kids(root, 'resources') for x in kids(c, 'resource')]
    return res, root, rs


def check_resource(m, w, res, rs, want, ctx):
    """one resource per item, files that exist; gives the path of each item"""
    m.eq(len(res), len(want), 'number of items migrated', ctx)
    m.eq(len(rs), len(want), 'number of resources', ctx)
    ids = [attr(x, 'identifier') for x in rs]
    m.eq(len(set(ids)), len(ids), 'identifiers of resources', ids, ctx)
    paths = []
    for x in rs:
        href = attr(x, 'href')
        m.check(href is not None, 'resource without entry point', ctx)
        files = [attr(f, 'href') for f in kids(x, 'file')]
        m.check(href in files, 'entry point is not a file of the resource', href, files, ctx)
        for f in files:
            p = os.path.join(str(w.cp.dPath), html_unescape(f))
            m.check(os.path.isfile(p), 'file of a resource is missing', f, ctx)
        paths.append(os.path.join(str(w.cp.dPath), html_unescape(href)))
    m.eq(len(set(paths)), len(paths), 'items share a file', paths, ctx)
    return paths


def html_unescape(s):
    import urllib
    return urllib.unquote(str(s)).decode('utf-8')


def check_item(m, w, it, rsc, path, r, ctx):
    el = dom(path)
    m.eq((el.getNamespaceURI(), el.getLocalName()), (NS2, 'assessmentItem'), 'root of an item', ctx)
    i = attr(el, 'identifier')
    m.check(bool(NCNAME.match(i or u'')), 'identifier of an item', i, ctx)
    if NCNAME.match(it['ident']):
        m.eq(i, it['ident'], 'identifier of an item', ctx)
    t = it['title'] or it['meta'].get('title', (None,))[0] or i
    m.eq(attr(el, 'title'), t, 'title of an item', ctx)
    m.eq(attr(el, 'label'), it['label'], 'label of an item', ctx)
    m.eq(el.getAttributeNS('http://www.w3.org/XML/1998/namespace', 'lang') or None, it['lang'], 'language of an item', ctx)
    check_order(m, el, ctx)
    names = check_body(m, it, el, ctx)
    if names is None:
        return
    decls = dict((attr(d, 'identifier'), d) for d in kids(el, 'responseDeclaration'))
    resps = responses(it['body'])
    m.eq(len(kids(el, 'responseDeclaration')), len(resps), 'number of responses declared', ctx)
    ok = True
    for p in resps:
        f = names.get(('R', p['ident']))
        if f is None:
            ok = False
        else:
            check_field(m, p, f, decls, r, ctx)
            if f['id'] not in decls:
                ok = False
    # images are in the package
    for e in [f['object'] for f in names.values() if 'object' in f] + list_images(el):
        s = attr(e, 'data') or attr(e, 'src')
        p = os.path.join(os.path.dirname(path), html_unescape(s))
        m.check(os.path.isfile(p) and open(p, 'rb').read() == w.images[plain(s)], 'image of an item', s, ctx)
        m.count('images')
    if ok:
        check_rules(m, it, el, names, path, r, ctx)
    # metadata
    md = fold(alltext(rsc))
    for v in [it['title']] + [it['meta'].get(k, (None,))[0] for k in ('description', 'topic', 'toolvendor', 'title')] + (it['meta']['keywords'][0].split(',') if 'keywords' in it['meta'] else []) + ([it['comment']] if it['comment'] else []):
        if v:
            m.check(fold(v) in md, 'metadata lost', v, md, ctx)
            m.count('metadata')
    if 'status' in it['meta']:
        m.check(it['meta']['status'][0].lower() in md, 'metadata lost', it['meta']['status'], md, ctx)
    for view, t in it['objectives']:
        if view == u'All':
            for x in texts_of(t):
                m.check(fold(x) in md, 'objective lost', x, md, ctx)
    return el


def list_images(el):
    out = []
    nl = el.getElementsByTagNameNS(NS2, 'img')
    for i in range(nl.getLength()):
        out.append(nl.item(i))
    return out


def fam_item(m, r):
    w = Work(r)
    try:
        it = gen_item(r, sorted(w.images))
        s = u'<?xml version="1.0" encoding="utf-8"?>\n<questestinterop>%s</questestinterop>' % w_item(it, r)
        m.key(s)
        m.sample(s)
        doc = w.doc(s)
        res, root, rs = migrate(w, doc, m)
        paths = check_resource(m, w, res, rs, [it], s)
        check_item(m, w, it, rs[0], paths[0], r, s)
        m.count('items')
        if r.random() < .25:
            # once more: the source is not disturbed, and the same comes out
            a = open(paths[0], 'rb').read()
            w.cp.Close()
            w.cp = imscp.ContentPackage()
            res, root, rs = migrate(w, doc, m)
            paths = check_resource(m, w, res, rs, [it], s)
            m.eq(COPY.sub('.gif', open(paths[0], 'rb').read()), COPY.sub('.gif', a), 'migrated twice', s)
            m.count('twice')
    finally:
        w.close()


def gen_bank(r, images):
    """hierarchy of items in sections, assessments and banks"""
    items = []
    pool = [u'I1', u'I2', u'I2', u'dup', u'dup x', u'dup:x']

    def item():
        it = gen_item(r, images)
        if r.random() < .5:
            it['ident'] = r.choice(pool)
        it['body'] = it['body'][:2]
        items.append(it)
        return w_item(it, r)

    def section(depth):
        out = [u'<section ident="S%d"%s>' % (r.randint(1, 99), r.choice([u'', u' title="sec &amp; more"']))]
        if r.random() < .3:
            out.append(u'<qticomment>c</qticomment>')
        if r.random() < .2:
            out.append(u'<duration>1H</duration>')
        if r.random() < .2:
            out.append(u'<rubric view="All"><material><mattext>section rubric</mattext></material></rubric>')
        if r.random() < .2:
            out.append(u'<outcomes_processing scoremodel="SumOfScores"><outcomes><decvar varname="T"/></outcomes></outcomes_processing>')
        if r.random() < .2:
            out.append(u'<sectionfeedback ident="f"><material><mattext>good</mattext></material></sectionfeedback>')
        if r.random() < .2:
            out.append(u'<selection_ordering><selection><selection_number>2</selection_number></selection><order order_type="Random"/></selection_ordering>')
        for i in range(r.choice([0, 1, 1, 2])):
            if depth < 2 and r.random() < .3:
                out.append(section(depth + 1))
            elif r.random() < .1:
                out.append(r.choice([u'<itemref linkrefid="x"/>', u'<sectionref linkrefid="y"/>']))
            else:
                out.append(item())
        return u''.join(out) + u'</section>'
    k = r.choice(['items', 'items', 'sections', 'mixed', 'assessment', 'bank'])
    c = u'<qticomment>whole</qticomment>' if r.random() < .3 else u''
    if k == 'items':
        s = c + u''.join(item() for i in range(r.choice([1, 2, 3])))
    elif k == 'sections':
        s = c + u''.join(section(0) for i in range(r.choice([1, 2])))
    elif k == 'mixed':
        s = c + u''.join(section(0) if r.random() < .5 else item() for i in range(r.choice([2, 3])))
    elif k == 'assessment':
        s = c + u'<assessment ident="A" title="t">%s%s%s</assessment>' % (r.choice([u'', u'<qticomment>c</qticomment>']), r.choice([u'', u'<duration>P1H</duration>']), u''.join(section(0) for i in range(r.choice([1, 2]))))
    else:
        s = c + u'<objectbank ident="B">%s</objectbank>' % u''.join(section(0) if r.random() < .3 else item() for i in range(r.choice([1, 2, 3])))
    return k, u'<?xml version="1.0" encoding="utf-8"?>\n<questestinterop>%s</questestinterop>' % s, items


def sig(e, skip=()):
    """canonical form of a v1 tree, ignoring white space between elements"""
    out = [e.getNodeName()]
    a = e.getAttributes()
    out.append(sorted((a.item(i).getNodeName(), a.item(i).getValue()) for i in range(a.getLength())))
    c = e.getFirstChild()
    t = u''
    ch = []
    while c is not None:
        if c.getNodeType() in (3, 4):
            t += unicode(c.getData())
        elif c.getNodeType() == 1:
            ch.append(sig(c))
        c = c.getNextSibling()
    out += [bare(t), ch]
    return out


def covers(new, old):
    """new has everything that old has (new may spell out defaults)"""
    if new[0] != old[0]:
        return '%s for %s' % (new[0], old[0])
    na = dict(new[1])
    for n, v in old[1]:
        if na.get(n) != v:
            return '%s/@%s is %r not %r' % (new[0], n, na.get(n), v)
    if new[2] != old[2]:
        return '%s has text %r not %r' % (new[0], new[2], old[2])
    extra = [c for c in new[3] if c[0] not in ('outcomes', 'conditionvar') or c[3] or c[2]]
    want = [c for c in old[3] if c[0] not in ('outcomes', 'conditionvar') or c[3] or c[2]]
    if [c[0] for c in extra] != [c[0] for c in want]:
        return '%s has %r not %r' % (new[0], [c[0] for c in extra], [c[0] for c in want])
    for a, b in zip(extra, want):
        f = covers(a, b)
        if f:
            return f
    return None


def parse_dom(s):
    b = FACTORY.newDocumentBuilder()
    b.setErrorHandler(None)
    return b.parse(ByteArrayInputStream(s)).getDocumentElement()


def fam_bank(m, r):
    w = Work(r)
    try:
        k, s, items = gen_bank(r, sorted(w.images))
        m.key(s)
        doc = w.doc(s)
        if r.random() < .5:
            # what was read is written again in full
            out = unicode(doc).encode('utf-8')
            f = covers(sig(parse_dom(out)), sig(parse_dom(s.encode('utf-8'))))
            m.check(f is None, 'written v1 document', f, s)
            m.count('written')
        res, root, rs = migrate(w, doc, m)
        m.count('kind_' + k)
        paths = check_resource(m, w, res, rs, items, s)
        if len(rs) == len(items):
            for it, x, p in zip(items, rs, paths):
                check_item(m, w, it, x, p, r, s)
                m.count('bank_items')
    finally:
        w.close()


# --- what is not supported is reported ------------------------------------------

def fam_refused(m, r):
    """constructs that have no migration are refused with the documented error, or logged"""
    w = Work(r)
    g = Gen(r, [])
    lid = u'<response_lid ident="R1" rcardinality="Single"><render_choice><response_label ident="A"><material><mattext>%s</mattext></material></response_label></render_choice></response_lid>' % esc(g.text())
    mat = u'<material><mattext>%s</mattext></material>' % esc(g.text())

    def item(body, cond=None, act=u'', decl=u'<decvar varname="SCORE" vartype="Integer" defaultval="0"/>', extra=u''):
        rp = u'<resprocessing><outcomes>%s</outcomes><respcondition><conditionvar>%s</conditionvar>%s</respcondition></resprocessing>' % (decl, cond, act) if cond is not None else u''
        return u'<item ident="i">%s<presentation>%s</presentation>%s</item>' % (extra, body, rp)
    kind = r.choice(['varsubset', 'varsubstring', 'unanswered', 'durequal', 'durlt', 'durlte', 'durgt', 'durgte', 'ordered', 'orderedhot', 'applet', 'application', 'inlineimage', 'inlineaudio', 'inlinevideo', 'lt_id', 'undeclared_outcome',
                     'undeclared_response', 'empty_cond', 'empty_and', 'empty_or', 'empty_not', 'badmatref', 'badmaterialref', 'solution', 'hint', 'emptyhtml', 'rtf', 'maxattempts', 'hotspot_none', 'inside_id', 'str_choice', 'str_slider', 'xy_choice', 'inside_multi'])
    log = None
    if kind.startswith('dur') or kind in ('varsubset', 'varsubstring', 'unanswered'):
        s = item(lid, u'<%s respident="R1">A</%s>' % (kind, kind), u'<setvar>1</setvar>')
        want = REFUSED
    elif kind == 'ordered':
        s, want = item(lid.replace(u'Single', u'Ordered')), REFUSED
    elif kind == 'orderedhot':
        s, want = item(lid.replace(u'Single', u'Ordered').replace(u'render_choice', u'render_hotspot')), REFUSED
    elif kind in ('applet', 'application'):
        s, want = item(u'<material><mat%s uri="x"/></material>' % kind), REFUSED
    elif kind.startswith('inline'):
        s, want = item(u'<material><mat%s>AAAA</mat%s></material>' % (kind[6:], kind[6:])), REFUSED
    elif kind == 'lt_id':
        s, want = item(lid, u'<varlt respident="R1">A</varlt>'), REFUSED
    elif kind == 'inside_id':
        s, want = item(lid, u'<varinside respident="R1" areatype="Rectangle">1,2,3,4</varinside>'), REFUSED
    elif kind == 'inside_multi':
        s, want = item(lid.replace(u'Single', u'Multiple'), u'<varinside respident="R1" areatype="Rectangle">1,2,3,4</varinside>'), REFUSED
    elif kind == 'undeclared_outcome':
        s, want = item(lid, u'<varequal respident="R1">A</varequal>', u'<setvar varname="NOPE">1</setvar>'), REFUSED
    elif kind == 'undeclared_response':
        s, want, log = item(lid, u'<varequal respident="R9">A</varequal>', u'<setvar>1</setvar>'), None, 'undeclared response'
    elif kind == 'empty_cond':
        s, want, log = item(lid, u''), None, 'empty condition'
    elif kind in ('empty_and', 'empty_or', 'empty_not'):
        s, want, log = item(lid, u'<%s></%s>' % (kind[6:], kind[6:])), None, 'empty ' + kind[6:]
    elif kind == 'badmatref':
        s, want = item(u'<material><matref linkrefid="nope"/></material>'), REFUSED
    elif kind == 'badmaterialref':
        s, want = item(lid.replace(u'<render_choice>', u'<material_ref linkrefid="nope"/><render_choice>')), REFUSED
    elif kind in ('solution', 'hint'):
        s, want = item(lid) .replace(u'</item>', u'<itemfeedback ident="f"><%s><%smaterial>%s</%smaterial></%s></itemfeedback></item>' % (kind, kind, mat, kind, kind)), None
    elif kind == 'emptyhtml':
        s, want = item(u'<material><mattext texttype="text/html"></mattext></material>' + lid), None
    elif kind == 'rtf':
        s, want = item(u'<material><mattext texttype="text/rtf">{\\rtf1 x}</mattext></material>'), REFUSED
    elif kind == 'maxattempts':
        s, want, log = item(lid).replace(u'ident="i"', u'ident="i" maxattempts="2"'), None, 'maxattempts'
    elif kind == 'hotspot_none':
        s, want, log = item(u'<response_lid ident="R1"><render_hotspot><response_label ident="A" rarea="Rectangle">1,2,3,4</response_label></render_hotspot></response_lid>').replace(u'ident="R1"', u'ident="R1" rcardinality="Single"'), None, 'no hotspot image'
    elif kind == 'str_choice':
        s, want = item(lid.replace(u'response_lid', u'response_str')), REFUSED
    elif kind == 'str_slider':
        s, want = item(lid.replace(u'response_lid', u'response_str').replace(u'render_choice', u'render_slider')), REFUSED
    else:
        s, want = item(lid.replace(u'response_lid', u'response_xy')), REFUSED
    s = u'<questestinterop>%s</questestinterop>' % s
    m.key(s)
    try:
        m.count('refuse_' + kind)

        def go():
            d = w.doc(s)
            return d.MigrateV2(w.cp)
        if want:
            m.raises(want, 'unsupported construct: ' + kind, go, ctx=s)
        else:
            res = go()
            m.eq(len(res), 1, 'item with ' + kind, s)
            if log:
                m.check(any(log in x for x in res[0][2]), 'no warning for ' + kind, res[0][2], s)
                md = fold(alltext(dom(os.path.join(str(w.cp.dPath), 'imsmanifest.xml'))))
                m.check(log in md, 'warning is not in the package', kind, md, s)
            if kind in ('solution', 'hint'):
                root = dom(os.path.join(str(w.cp.dPath), 'imsmanifest.xml'))
                p = os.path.join(str(w.cp.dPath), attr(kids(kids(root, 'resources')[0])[0], 'href'))
                m.check(bare(g_text(mat)) in bare(alltext(dom(p))), 'text of a ' + kind, s)
    finally:
        w.close()


def g_text(mat):
    return alltext(parse_dom(mat.encode('utf-8')))


# --- areas -----------------------------------------------------------------------

def fam_areas(m, r):
    g = Gen(r, [])
    for i in range(10):
        size = (r.randint(40, 300), r.randint(40, 300))
        a = g.area(size)
        kind = getattr(v1core.Area, a[0])
        m.key((a[0], tuple(a[1]), a[2]))
        log = []
        shape, coords = v1core.MigrateV2AreaCoords(kind, a[2], log)
        name = core.Shape.EncodeValue(shape)
        c = [int(unicode(coords[j])) for j in range(len(coords.values))]
        bad = None
        pts = [(a[1][0] + r.randint(-22, 22), a[1][1] + r.randint(-22, 22)) for j in range(40)]
        for x, y in pts:
            want = area_in(a, x, y)
            if want is not None and shape_in(name, c, x, y) != want:
                bad = (x, y, want)
            m.count('area_points', want is not None)
        m.check(bad is None, 'area', a, name, c, bad)
        b = core.CalculateShapeBounds(shape, coords)
        inside = [q for q in pts if shape_in(name, c, *q)]
        m.check(all(b[0] <= x <= b[2] and b[1] <= y <= b[3] for x, y in inside), 'bounds of a shape', a, b, inside)
        if name in ('poly', 'rect'):
            xs, ys = c[0::2], c[1::2]
            m.eq(b, [min(xs), min(ys), max(xs), max(ys)], 'bounds of a shape', a)
        dx, dy = r.randint(-30, 30), r.randint(-30, 30)
        core.OffsetShape(shape, coords, dx, dy)
        c2 = [int(unicode(coords[j])) for j in range(len(coords.values))]
        n = {'circle': 2, 'ellipse': 2}.get(name, len(c))
        m.eq(c2, [v - (dx, dy)[j % 2] if j < n else v for j, v in enumerate(c)], 'offset of a shape', a, (dx, dy))
        m.count('area_' + name)


FAMILIES = [
    Family('item', fam_item, 900, 12000, need={}),
    Family('bank', fam_bank, 250, 3000, need={}),
    Family('refused', fam_refused, 500, 3000, need={}),
    Family('areas', fam_areas, 600, 6000, need={}),
]
