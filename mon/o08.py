"""O08 the OData client sees the data the server holds"""

import logging
import re
import socket
import StringIO
from lib import Family
import odm
import odw
import odl
import odh
import o07
from odw import SETS, Store
import pyslet.odata2.csdl as edm
import pyslet.odata2.core as core
import pyslet.odata2.client as client
import pyslet.odata2.metadata as metadata
import pyslet.odata2.server as server
import pyslet.rfc2616 as http
from pyslet.rfc2616_core import HTTPException

PROPERTY = 'O08'
logging.disable(logging.CRITICAL)
PREFIX = '/svc'
ROOT = 'http://host' + PREFIX + '/'


class Sock(object):
    """A socket to a WSGI application, with requests and responses in pieces"""

    def __init__(self, net):
        self.net, self.buf, self.out, self.closed = net, '', '', False
        self.eof = False

    def send(self, data):
        if self.eof:
            raise socket.error(32, 'Broken pipe')
        r = self.net.r
        n = len(data) if self.net.big else r.randint(1, len(data))
        self.buf += data[:n]
        while True:
            i = self.buf.find('\r\n\r\n')
            if i < 0:
                return n
            lines = self.buf[:i].split('\r\n')
            headers = [(l.split(':', 1)[0].strip(), l.split(':', 1)[1].strip()) for l in lines[1:]]
            length = [v for k, v in headers if k.lower() == 'content-length']
            chunked = [v for k, v in headers if k.lower() == 'transfer-encoding']
            if chunked:
                raise odh.Bad('chunked request')
            length = int(length[0]) if length else 0
            if len(self.buf) < i + 4 + length:
                return n
            body = self.buf[i + 4:i + 4 + length]
            self.buf = self.buf[i + 4 + length:]
            method, target, version = lines[0].split(' ')
            x = self.net.handle(method, target, headers, body)
            if self.net.r.random() < 0.1:
                self.eof = True
                x = x.replace('\r\n', '\r\nConnection: close\r\n', 1)
            self.out += x

    def recv(self, n):
        if not self.out:
            return ''
        k = n if self.net.big else self.net.r.randint(1, min(n, 400))
        x, self.out = self.out[:k], self.out[k:]
        return x

    def shutdown(self, how):
        pass

    def close(self):
        self.closed = True


class Net(object):

    def __init__(self, m, r, app):
        self.m, self.r, self.app = m, r, app
        self.big = r.random() < 0.7
        self.reqs = []
        net = self

        class Conn(http.Connection):

            def NewSocket(self):
                with self.connectionLock:
                    if self.connectionClosed:
                        raise HTTPException("Connection closed")
                    self.socket = Sock(net)
                    self.socketFile = self.socket
                    self.socketSelect = net.select

        class Client(client.Client):
            ConnectionClass = Conn

        self.client = Client()
        self.client.socketSelect = self.select
        self.client.LoadService(ROOT)

    def select(self, rs, ws, es, timeout):
        return [s for s in rs if s.out or s.eof], list(ws), []

    def handle(self, method, target, headers, body):
        m = self.m
        m.count('requests')
        self.reqs.append('%s %s' % (method, target[:200]))
        del self.reqs[:-12]
        hs = dict((k.lower(), v) for k, v in headers)
        m.check(hs.get('host') == 'host' and re.match(r'/[!-~]*\Z', target) and '#' not in target, 'request-line', target, hs)
        try:
            p = odh.call(self.app, method, target, [(k, v) for k, v in headers if k.lower() != 'content-length'], body if 'content-length' in hs else None, prefix='')
        except odh.Bad as x:
            m.violate('server', '%s %s %s' % (x, method, target))
            return 'HTTP/1.1 500 Broken\r\nContent-Length: 0\r\n\r\n'
        if p.status == 500:
            m.violate('server-error', '%s %s %r %r' % (method, target, body, p))
        out = ['HTTP/1.1 ' + p.line]
        hs = list(p.headers)
        names = [k.lower() for k, v in hs]
        body = p.body
        if 'content-length' not in names and p.status != 204:
            if self.r.random() < 0.5:
                hs.append(('Content-Length', str(len(body))))
            else:
                hs.append(('Transfer-Encoding', 'chunked'))
                cut = self.r.randint(0, len(body))
                body = ''.join('%x\r\n%s\r\n' % (len(c), c) for c in (body[:cut], body[cut:]) if c) + '0\r\n\r\n'
        if method == 'HEAD':
            body = ''
        return '\r\n'.join(out + ['%s: %s' % h for h in hs]) + '\r\n\r\n' + body


_worlds = {}


def serve(m, r, key, text):
    """(server side opener, client side opener, net)"""
    if key not in _worlds:
        if len(_worlds) > 20:
            _worlds.clear()
        doc = metadata.Document()
        doc.Read(StringIO.StringIO(text.encode('utf-8')))
        _worlds[key] = doc
    doc = _worlds[key]
    odm.memcontainer(doc, 'V.C')
    s = server.Server(ROOT)
    s.SetModel(doc)
    s.topmax = r.choice([1, 2, 3, 7, 100])
    net = Net(m, r, s)
    opener = lambda name: doc.root.DataServices['V.C.' + name].OpenCollection()
    return opener, lambda name: net.client.feeds[name].OpenCollection(), net


class W(Store):

    def __init__(self, m, r, names):
        self.direct, copen, self.net = serve(m, r, 'sets', odm.edmxdoc(odw.schema()))
        Store.__init__(self, m, copen, o07.Gen(), names, small=True)

    def ctx(self):
        return '%s [%s]' % (Store.ctx(self), '; '.join(self.net.reqs[-6:]))

    def both(self, name):
        self.checkall(name)
        copen = self.open
        self.open = self.direct
        self.log.append('(direct)')
        self.checkall(name)
        self.open = copen

    def prepare(self, r, name, n):
        """Contents that did not come through the client"""
        with self.direct(name) as coll:
            for i in range(n):
                ck, mvs = self.pick(r, name, False)
                if ck is None or ck in self.model[name]:
                    continue
                e, row = self.new(r, coll, name, mvs)
                coll.InsertEntity(e)
                self.model[name][ck] = (mvs, row)
                if SETS[name][2]:
                    t = r.choice(['text/plain', 'application/octet-stream', 'image/png; a=b', 'text/html; charset=utf-8'])
                    data = ''.join(chr(r.randrange(256)) for j in range(r.choice([0, 1, 50, 3000])))
                    e.SetStreamFromGenerator(http.MediaType.FromString(t), iter([data]))
                    self.streams[name][ck] = (t, data)


OPS = [odw.op_insert] * 6 + [odw.op_autokey] * 2 + [odw.op_update] * 4 + [odw.op_scribble, odw.op_delete, odw.op_delete, odw.op_delete, odw.op_stale, odw.op_assign, odw.op_copy]
DOCOPS = [odw.op_update] * 4 + [odw.op_scribble, odw.op_delete, odw.op_stale]


def checkstreams(s, name):
    keys = SETS[name][0]
    with s.open(name) as coll:
        es = dict((odw.pkey(keys, e.Key()), e) for e in coll.itervalues())
        for ck, (mvs, row) in s.model[name].items():
            t, data = s.streams[name].get(ck, ('application/octet-stream', ''))
            for e in (coll[odw.nkey(keys, mvs)], es[ck]):
                got = ''.join(e.GetStreamGenerator())
                s.m.check(got == data and e.GetStreamSize() == len(data), 'stream-data', ck, got, e.GetStreamSize(), s.ctx())
                s.m.check(e.GetStreamType() == http.MediaType.FromString(t), 'stream-type', ck, e.GetStreamType(), s.ctx())
                s.m.count('streams')


def f_histories(m, r):
    names = r.sample(sorted(SETS), r.randint(1, 3))
    s = W(m, r, names)
    for n in names:
        s.prepare(r, n, r.randint(0, 5))
    for i in range(r.randint(3, 14)):
        name = r.choice(names)
        r.choice(DOCOPS if SETS[name][2] else OPS)(s, r, name)
        if r.random() < 0.3 or i == 0:
            s.both(name)
    for n in names:
        s.both(n)
        if SETS[n][2]:
            checkstreams(s, n)
    m.key(tuple(s.log))
    m.sample(s.ctx())


def f_queries(m, r):
    name = r.choice(['Items', 'Items', 'Pairs', 'Pairs', 'Names', 'Longs', 'Stamps', 'Guids', 'Decs', 'Docs'])
    s = W(m, r, [name])
    s.prepare(r, name, r.choice([0, 1, 2, 5, 10, 10, 20]))
    s.log.append('%s with %d' % (name, len(s.model[name])))
    for i in range(3):
        odw.query(s, r, name, paging=False)
        pages(s, r, name)
    m.key(tuple(s.log))
    m.sample(s.ctx())
    s.checkall(name)


def pages(s, r, name):
    """Pages of the client are the pages of the server"""
    m = s.m
    keys = SETS[name][0]
    with s.direct(name) as d:
        with s.open(name) as coll:
            if r.random() < 0.5:
                text, f = odw.condition(r, name)
                coll.Filter(core.CommonExpression.FromString(text))
                d.Filter(core.CommonExpression.FromString(text))
            if r.random() < 0.5:
                text = u','.join(x[0] for x in odw.ordering(r, name))
                coll.OrderBy(core.CommonExpression.OrderByFromString(text))
                d.OrderBy(core.CommonExpression.OrderByFromString(text))
            top, skip = r.choice([None, 1, 2, 3, 20]), r.choice([0, 0, 1, 3, 30])
            d.SetPage(None)
            ref = [odw.pkey(keys, e.Key()) for e in d.iterpage()]
            size = min(x for x in (top, s.net.app.topmax) if x is not None)
            forced = top is None or top > s.net.app.topmax
            s.log.append('pages top=%s skip=%s' % (top, skip))
            coll.SetPage(top, skip)
            pos = skip
            for n in range(40):
                page = []
                for e in coll.iterpage(True):
                    ck = odw.pkey(keys, e.Key())
                    page.append(ck)
                    if ck in s.model[name]:
                        s.checkentity(name, e, ck, 'page')
                if not m.check(page == ref[pos:pos + size], 'page', page, ref[pos:pos + size], s.net.app.topmax, s.ctx()):
                    return
                more = pos + size < len(ref)
                m.check((coll.NextSkipToken() is not None) == (forced and more), 'skiptoken', s.ctx())
                m.count('pages')
                pos += size
                if not page:
                    break


class LW(odl.World):
    """Links through the client, where some operations take several requests"""

    def __init__(self, m, r):
        sets, assocs = odl.rschema(r)
        self.direct, copen, self.net = serve(m, r, repr((sets, assocs)), odm.edmxdoc(odl.xml(sets, assocs)))
        odl.World.__init__(self, m, sets, assocs, copen)

    def ctx(self):
        return '%s [%s]' % (odl.World.ctx(self), '; '.join(self.net.reqs[-6:]))

    def stored(self):
        """What the server really holds"""
        st = odl.State(self.sets, self.assocs)
        for s in self.sets:
            with self.direct(s) as coll:
                for e in coll.itervalues():
                    st.rows[s][e.Key()] = e['Data'].value
                    for nav in self.navs[s]:
                        with e[nav.name].OpenCollection() as nc:
                            for k in nc.keys():
                                st.links[nav.assoc.name].add(nav.link(e.Key(), k))
        return st

    def attempt(self, change, action, mech):
        """Results the model predicts; a refusal in the middle of several requests may leave some of them done"""
        m = self.m
        new = self.state.copy()
        want = True
        try:
            change(new)
        except odl.Invalid as why:
            want = why
        steps = len(self.net.reqs)
        try:
            action()
            done = True
        except odl.REFUSED + (NotImplementedError,) as x:
            done = x
        real = self.stored()
        if done is True:
            if not m.check(want is True, mech + '-accepted', want, self.ctx()):
                return None
            m.check(real.rows == new.rows and real.links == new.links, mech + '-effect', real.rows, new.rows, real.links, new.links, self.ctx())
            self.state = new
            m.count(mech)
            return True
        if want is True and not (mech in self.LOOSE or isinstance(done, NotImplementedError)):
            m.violate(mech + '-refused', '%s %s %s' % (type(done).__name__, done, self.ctx()))
            return None
        if mech not in self.LOOSE:
            m.check(real.rows == self.state.rows and real.links == self.state.links, mech + '-refused-effect', real.rows, self.state.rows, real.links, self.state.links, self.ctx())
        self.state = real
        m.count('refused_' + mech)
        return False

    # several requests
    LOOSE = ('navinsert', 'update')


LOPS = ['insert'] * 8 + ['navinsert'] * 3 + ['link'] * 4 + ['unlink'] * 2 + ['replace'] * 3 + ['update'] * 3 + ['delete'] * 2 + ['query', 'query', 'expand']


def f_links(m, r):
    w = LW(m, r)
    for i in range(r.randint(4, 16)):
        getattr(w, 'op_' + r.choice(LOPS))(r)
        if r.random() < 0.2:
            w.checkall()
    w.checkall()
    m.key(tuple(w.log))
    m.sample(w.ctx())


FAMILIES = [
    Family('histories', f_histories, 80, 3000, {'inserts': 60, 'updates': 70, 'deletes': 30, 'lookups': 1200, 'states': 500}),
    Family('queries', f_queries, 70, 3000, {'queries': 100, 'pages': 250, 'filtered': 60}),
    Family('links', f_links, 100, 3000, {'insert': 80, 'linksets': 200, 'nonempty_linksets': 90, 'link': 12}),
]
