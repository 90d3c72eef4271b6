"""An HTTP harness for OData services with independent readers and writers of the formats"""

import base64
import json
import re
import StringIO
import o01
import odw
from o01 import decode, GRAMMAR, same
from java.lang import Float
from java.io import ByteArrayInputStream
from javax.xml.parsers import DocumentBuilderFactory
from java.lang import Throwable
from org.xml.sax import InputSource, SAXException
from java.time import LocalDate

ATOM = 'http://www.w3.org/2005/Atom'
M = 'http://schemas.microsoft.com/ado/2007/08/dataservices/metadata'
D = 'http://schemas.microsoft.com/ado/2007/08/dataservices'
APP = 'http://www.w3.org/2007/app'
REL = 'http://schemas.microsoft.com/ado/2007/08/dataservices/related/'
_dbf = DocumentBuilderFactory.newInstance()
_dbf.setNamespaceAware(True)


class Bad(Exception):
    """A response that is not what the protocol allows"""


class Quiet(object):
    def error(self, e):
        raise e
    fatalError = error

    def warning(self, e):
        pass


class Node(object):
    """A namespace aware element"""

    def __init__(self, e):
        self.ns, self.name = e.getNamespaceURI(), e.getLocalName()
        self.attrs, self.children, text = {}, [], []
        a = e.getAttributes()
        for i in range(a.getLength()):
            x = a.item(i)
            if x.getNamespaceURI() != 'http://www.w3.org/2000/xmlns/':
                self.attrs[(x.getNamespaceURI(), x.getLocalName())] = x.getNodeValue()
        c = e.getFirstChild()
        while c is not None:
            if c.getNodeType() == 1:
                self.children.append(Node(c))
            elif c.getNodeType() in (3, 4):
                text.append(c.getNodeValue())
            c = c.getNextSibling()
        self.text = u''.join(text)

    def all(self, ns, name):
        return [c for c in self.children if (c.ns, c.name) == (ns, name)]

    def one(self, ns, name, optional=False):
        x = self.all(ns, name)
        if len(x) > 1 or (not x and not optional):
            raise Bad('%d %s elements in %s' % (len(x), name, self.name))
        return x[0] if x else None

    def get(self, name, ns=None):
        return self.attrs.get((ns, name))


def dom(data):
    b = _dbf.newDocumentBuilder()
    b.setErrorHandler(None)
    try:
        return Node(b.parse(InputSource(ByteArrayInputStream(data))).getDocumentElement())
    except Bad:
        raise
    except (SAXException, Throwable) as e:
        raise Bad('not well-formed XML: %s: %s' % (e, data[:400]))


class Response(object):

    def __init__(self, status, headers, body):
        self.line, self.headers, self.body = status, headers, body
        self.status = int(status[:3])

    def header(self, name):
        x = [v for n, v in self.headers if n.lower() == name.lower()]
        return x[0] if x else None

    def mtype(self):
        return (self.header('Content-Type') or '').split(';')[0].strip().lower()

    def __repr__(self):
        return '%s %s %s' % (self.line, self.headers, self.body[:300])


def unquote(s):
    s = str(s)
    return re.sub(r'%([0-9A-Fa-f]{2})', lambda g: chr(int(g.group(1), 16)), s)


def call(app, method, url, headers=(), body=None, prefix='', root='http://host'):
    """A request through the WSGI interface; url is absolute or relative to the host"""
    if url.startswith(root):
        url = url[len(root):]
    path, q = url.split('?', 1) if '?' in url else (url, '')
    env = {'REQUEST_METHOD': method, 'SCRIPT_NAME': '', 'PATH_INFO': unquote(path), 'QUERY_STRING': q, 'SERVER_NAME': 'host', 'SERVER_PORT': '80',
           'SERVER_PROTOCOL': 'HTTP/1.1', 'wsgi.version': (1, 0), 'wsgi.url_scheme': 'http', 'wsgi.input': StringIO.StringIO(body or ''),
           'wsgi.errors': StringIO.StringIO(), 'wsgi.multithread': True, 'wsgi.multiprocess': False, 'wsgi.run_once': False}
    if prefix and env['PATH_INFO'].startswith(prefix):
        env['SCRIPT_NAME'], env['PATH_INFO'] = prefix, env['PATH_INFO'][len(prefix):]
    if body is not None:
        env['CONTENT_LENGTH'] = str(len(body))
    for n, v in headers:
        if v is None:
            continue
        k = n.upper().replace('-', '_')
        env[k if k in ('CONTENT_TYPE', 'CONTENT_LENGTH') else 'HTTP_' + k] = v
    got = []

    def start(status, hs, exc_info=None):
        got.append((status, list(hs)))
    out = app(env, start)
    chunks = []
    for c in out:
        if type(c) is not str:
            raise Bad('%s in the body' % type(c))
        chunks.append(c)
    if len(got) != 1:
        raise Bad('start_response called %d times' % len(got))
    status, hs = got[0]
    if type(status) is not str or not re.match(r'[1-5]\d\d [ -~]*\Z', status):
        raise Bad('status line %r' % status)
    for h in hs:
        if type(h) is not tuple or len(h) != 2 or type(h[0]) is not str or type(h[1]) is not str:
            raise Bad('header %r' % (h,))
        if not re.match(r"[-A-Za-z0-9]+\Z", h[0]) or re.search(r'[\x00-\x1f\x7f-\xff]', h[1]):
            raise Bad('header %r' % (h,))
    r = Response(status, hs, ''.join(chunks))
    n = r.header('Content-Length')
    if len([1 for h in hs if h[0].lower() == 'content-length']) > 1 or (n is not None and method != 'HEAD' and n != str(len(r.body))):
        raise Bad('Content-Length %s for %d bytes' % (n, len(r.body)))
    if r.body and not r.mtype():
        raise Bad('no Content-Type')
    if r.status == 204 and r.body:
        raise Bad('204 with a body')
    return r


# ------------------------------------------------------------ values
EPOCH = LocalDate.of(1970, 1, 1).toEpochDay()


def millis(mv):
    y, mo, d, h, mi, s, t = mv[:7]
    return LocalDate.of(y, mo, d).toEpochDay() * 86400000 + (h * 3600 + mi * 60 + s) * 1000, t / 1e4


def fixed(n, t):
    return ('%02d' % n) + (('.%07d' % t).rstrip('0') if t else '')


def xmltext(t, mv):
    """The text of a property value"""
    if t == 'Binary':
        return u''.join('%02X' % ord(c) for c in mv)
    if t == 'Boolean':
        return u'true' if mv else u'false'
    if t == 'DateTime':
        return u'%04d-%02d-%02dT%02d:%02d:%s' % (mv[:5] + (fixed(mv[5], mv[6]),))
    if t == 'DateTimeOffset':
        z = mv[7]
        return xmltext('DateTime', mv[:7]) + u'%s%02d:%02d' % ('-' if z < 0 else '+', abs(z) // 60, abs(z) % 60)
    if t == 'Time':
        return u'%02d:%02d:%s' % (mv[:2] + (fixed(mv[2], mv[3]),))
    if t == 'Guid':
        return u'-'.join((mv[:8], mv[8:12], mv[12:16], mv[16:20], mv[20:]))
    if t == 'Single':
        return unicode(Float.toString(mv))
    if t == 'Double':
        return unicode(repr(mv)).replace('+', '')
    return unicode(mv)


def jsonvalue(t, mv):
    if mv is None or t in ('Boolean', 'Byte', 'SByte', 'Int16', 'Int32'):
        return mv
    if t == 'Binary':
        return base64.b64encode(mv)
    if t == 'DateTime':
        ms, frac = millis(mv)
        return u'/Date(%d)/' % (ms + int(frac))
    if t == 'DateTimeOffset':
        ms, frac = millis(mv)
        return u'/Date(%d%s%04d)/' % (ms + int(frac), '-' if mv[7] < 0 else '+', abs(mv[7]))
    return xmltext(t, mv)


def fromtext(t, s):
    if t in o01.GRAMMAR and not re.match(GRAMMAR[t], s):
        raise Bad('%r is not a %s' % (s, t))
    return decode(t, s)


def samejson(t, j, mv):
    """The JSON value represents the model value"""
    if mv is None or j is None:
        return mv is j
    if t == 'Boolean':
        return j is mv
    if t in ('Byte', 'SByte', 'Int16', 'Int32'):
        return type(j) in (int, long) and j == mv
    if not isinstance(j, unicode):
        return False
    if t == 'Binary':
        return base64.b64decode(j) == mv
    if t in ('DateTime', 'DateTimeOffset'):
        g = re.match(r'/Date\((-?\d+)(?:([-+])(\d{4}))?\)/\Z', j)
        if not g:
            return False
        ms, frac = millis(mv)
        if not abs(int(g.group(1)) - ms - frac) <= 1:
            return False
        if t == 'DateTime':
            return g.group(2) is None
        return (int(g.group(3)) * (-1 if g.group(2) == '-' else 1) if g.group(2) else 0) == mv[7]
    return same(t, fromtext(t, j), mv)


def msprecision(t, mv):
    """What JSON can carry"""
    if mv is None:
        return None
    if t in odw.COMPLEX:
        return dict((n, msprecision(ct, mv[n])) for n, ct in odw.COMPLEX[t])
    if t in ('DateTime', 'DateTimeOffset'):
        return mv[:6] + (mv[6] // 10000 * 10000,) + mv[7:]
    return mv


# ------------------------------------------------------------ entities
class Entity(object):
    """A decoded entity: props {name: value}, links {nav: ('deferred', uri) | ('feed', [Entity]) | ('entry', Entity or None)}"""

    def __init__(self):
        self.props, self.links = {}, {}
        self.uri = self.etag = self.type = self.media = self.ctype = self.src = None


def boolattr(x):
    return x is not None and x.lower() == 'true'


def xmlprops(node):
    out = {}
    for p in node.children:
        if p.ns != D:
            raise Bad('property in namespace %s' % p.ns)
        if p.name in out:
            raise Bad('duplicate property ' + p.name)
        if boolattr(p.get('null', M)):
            if p.text or p.children:
                raise Bad('content in null property ' + p.name)
            out[p.name] = None
        elif p.children:
            if p.text.strip():
                raise Bad('mixed content in ' + p.name)
            out[p.name] = xmlprops(p)
        else:
            out[p.name] = p.text
    return out


def rel(base, href):
    if href is None:
        raise Bad('no href')
    return href if re.match('https?:', href) else base + href


def atomentry(n, base):
    if (n.ns, n.name) != (ATOM, 'entry'):
        raise Bad('%s not an entry' % n.name)
    e = Entity()
    base = n.get('base', 'http://www.w3.org/XML/1998/namespace') or base
    e.id = n.one(ATOM, 'id').text
    cats = [c for c in n.all(ATOM, 'category') if c.get('scheme') == 'http://schemas.microsoft.com/ado/2007/08/dataservices/scheme']
    if len(cats) != 1:
        raise Bad('%d categories' % len(cats))
    e.type = cats[0].get('term')
    n.one(ATOM, 'title')
    n.one(ATOM, 'updated')
    if not n.all(ATOM, 'author'):
        pass
    for l in n.all(ATOM, 'link'):
        r = l.get('rel')
        if r == 'edit':
            e.uri = rel(base, l.get('href'))
        elif r == 'edit-media':
            e.media = rel(base, l.get('href'))
        elif r and r.startswith(REL):
            name = r[len(REL):]
            if name in e.links:
                raise Bad('two links for ' + name)
            i = l.one(M, 'inline', True)
            feed = 'type=feed' in (l.get('type') or '')
            if i is None:
                e.links[name] = ('deferred', rel(base, l.get('href')), feed)
            elif feed:
                fs = i.all(ATOM, 'feed')
                e.links[name] = ('feed', atomfeed(fs[0], base)[0] if fs else [])
            else:
                es = i.all(ATOM, 'entry')
                e.links[name] = ('entry', atomentry(es[0], base) if es else None)
    c = n.one(ATOM, 'content', True)
    ps = n.one(M, 'properties', True)
    if c is not None and c.get('src') is not None:
        e.src, e.ctype = rel(base, c.get('src')), c.get('type')
        if c.children or c.text.strip():
            raise Bad('content with src is not empty')
    elif c is not None:
        if ps is not None:
            raise Bad('content and properties')
        if c.get('type') != 'application/xml':
            raise Bad('content type %s' % c.get('type'))
        ps = c.one(M, 'properties', True)
    e.props = xmlprops(ps) if ps is not None else {}
    e.form = 'atom'
    return e


def atomfeed(n, base):
    if (n.ns, n.name) != (ATOM, 'feed'):
        raise Bad('%s not a feed' % n.name)
    base = n.get('base', 'http://www.w3.org/XML/1998/namespace') or base
    n.one(ATOM, 'id')
    n.one(ATOM, 'title')
    n.one(ATOM, 'updated')
    nxt = [rel(base, l.get('href')) for l in n.all(ATOM, 'link') if l.get('rel') == 'next']
    if len(nxt) > 1:
        raise Bad('several next links')
    c = n.one(M, 'count', True)
    return [atomentry(e, base) for e in n.all(ATOM, 'entry')], nxt[0] if nxt else None, None if c is None else int(c.text)


def loads(data):
    def pairs(ps):
        out = {}
        for k, v in ps:
            if k in out:
                raise Bad('duplicate JSON name ' + k)
            out[k] = v
        return out

    def const(x):
        raise Bad('not JSON: ' + x)
    try:
        return json.loads(data.decode('utf-8'), object_pairs_hook=pairs, parse_constant=const)
    except ValueError as e:
        raise Bad('not JSON: %s %s' % (e, data[:300]))


def jsonentry(j, version):
    e = Entity()
    md = j['__metadata']
    e.uri, e.type = md['uri'], md['type']
    e.media = md.get('edit_media')
    e.src, e.ctype = md.get('media_src'), md.get('content_type')
    e.etag = md.get('etag')
    for k, v in j.items():
        if k == '__metadata':
            continue
        if isinstance(v, dict) and list(v) == ['__deferred']:
            e.links[k] = ('deferred', v['__deferred']['uri'], None)
        elif isinstance(v, dict) and '__metadata' in v:
            e.links[k] = ('entry', jsonentry(v, version))
        elif isinstance(v, list) or (isinstance(v, dict) and 'results' in v):
            e.links[k] = ('feed', jsonfeed(v, version)[0])
        else:
            e.props[k] = v
    e.form = 'json'
    return e


def jsonfeed(j, version):
    if version == 1:
        if not isinstance(j, list):
            raise Bad('version 1 feed is not an array')
        return [jsonentry(x, version) for x in j], None, None
    if not isinstance(j, dict):
        raise Bad('version 2 feed is not an object')
    nxt = j.get('__next')
    if isinstance(nxt, dict):
        nxt = nxt['uri']
    c = j.get('__count')
    return [jsonentry(x, version) for x in j['results']], nxt, None if c is None else int(c)


def form(resp):
    t = resp.mtype()
    if t == 'application/json':
        return 'json'
    if t in ('application/atom+xml', 'application/xml', 'text/xml', 'text/plain', 'application/atomsvc+xml'):
        return 'xml'
    raise Bad('Content-Type ' + t)


def entry(resp, base, version=2):
    if form(resp) == 'json':
        return jsonentry(loads(resp.body)['d'], version)
    return atomentry(dom(resp.body), base)


def feed(resp, base, version=2):
    if form(resp) == 'json':
        return jsonfeed(loads(resp.body)['d'], version)
    return atomfeed(dom(resp.body), base)


def error(resp):
    """(code, message) of an error document"""
    t = resp.mtype()
    if t == 'application/json':
        j = loads(resp.body)
        return j['error']['code'], j['error']['message']
    if t not in ('application/xml', 'text/plain', 'application/atom+xml', 'text/xml'):
        raise Bad('error of type ' + t)
    n = dom(resp.body)
    if (n.ns, n.name) != (M, 'error'):
        raise Bad('error document %s' % n.name)
    return n.one(M, 'code').text, n.one(M, 'message').text


def difference(form, props, got, row, names=None):
    """None or where decoded properties differ from the model row (only the named properties, if given)"""
    for n, t in props:
        if names is not None and n not in names:
            continue
        if n not in got:
            return n + ' missing'
        v, mv = got[n], row[n] if row is not None else None
        if t in odw.COMPLEX:
            if not isinstance(v, dict):
                return '%s: %r' % (n, v)
            v = dict((k, x) for k, x in v.items() if k != '__metadata')
            if sorted(v) != sorted(k for k, ct in odw.COMPLEX[t]):
                return '%s: %s' % (n, sorted(v))
            x = difference(form, odw.COMPLEX[t], v, mv)
            if x:
                return n + '/' + x
        elif form == 'json':
            if not samejson(t, v, mv):
                return '%s: %r not %r' % (n, v, mv)
        elif v is None or mv is None:
            if v is not mv:
                return '%s: %r not %r' % (n, v, mv)
        elif not same(t, fromtext(t, v), mv):
            return '%s: %r not %r' % (n, v, mv)
    return None


def esc(s):
    return s.replace(u'&', u'&amp;').replace(u'<', u'&lt;').replace(u'>', u'&gt;').replace(u'\r', u'&#13;').replace(u'"', u'&quot;')


def propxml(n, t, mv, top=False):
    ns = u' xmlns:d="%s" xmlns:m="%s"' % (D, M) if top else u''
    if t in odw.COMPLEX:
        return u'<d:%s m:type="V.%s"%s>%s</d:%s>' % (n, t, ns, u''.join(propxml(k, ct, mv[k]) for k, ct in odw.COMPLEX[t]), n)
    if mv is None:
        return u'<d:%s m:type="Edm.%s" m:null="true"%s/>' % (n, t, ns)
    return u'<d:%s m:type="Edm.%s" xml:space="preserve"%s>%s</d:%s>' % (n, t, ns, esc(xmltext(t, mv)), n)


def entryxml(props, row, links=(), stream=False):
    p = u'<m:properties>%s</m:properties>' % u''.join(propxml(n, t, row[n]) for n, t in props if n in row)
    if not stream:
        p = u'<content type="application/xml">%s</content>' % p
    ls = u''.join(u'<link rel="%s%s" title="%s" href="%s"/>' % (REL, n, n, esc(unicode(h))) for n, h in links)
    return (u'<?xml version="1.0" encoding="utf-8"?><entry xmlns="%s" xmlns:m="%s" xmlns:d="%s"><title/><updated>2010-01-01T00:00:00Z</updated>'
            u'<author><name/></author><id/>%s%s</entry>' % (ATOM, M, D, ls, p)).encode('utf-8')


def propjson(t, mv):
    if t in odw.COMPLEX:
        return dict((k, propjson(ct, mv[k])) for k, ct in odw.COMPLEX[t])
    return jsonvalue(t, mv)


def entryjson(props, row, links=()):
    j = dict((n, propjson(t, row[n])) for n, t in props if n in row)
    for n, h, many in links:
        b = {'__metadata': {'uri': h}}
        j.setdefault(n, []).append(b) if many else j.__setitem__(n, b)
    return json.dumps(j)


def escurl(s):
    return ''.join(c if c.isalnum() or c in "-_.~!*()'," else '%%%02X' % ord(c) for c in s.encode('utf-8'))


def uriliteral(t, mv):
    x = xmltext(t, mv)
    if t == 'String':
        return u"'%s'" % x.replace(u"'", u"''")
    if t in ('DateTime', 'DateTimeOffset', 'Time', 'Guid'):
        return u"%s'%s'" % (t.lower(), x)
    if t == 'Binary':
        return u"X'%s'" % x
    return x + {'Int64': u'L', 'Decimal': u'M', 'Double': u'D', 'Single': u'F'}.get(t, u'')


def keypath(keys, mvs):
    if len(keys) == 1:
        return '(%s)' % escurl(uriliteral(keys[0][1], mvs[0]))
    return '(%s)' % ','.join('%s=%s' % (n, escurl(uriliteral(t, mv))) for (n, t), mv in zip(keys, mvs))
