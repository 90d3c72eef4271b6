"""H02 HTTP client messages keep their framing, whatever the splitting"""

import logging
import socket
import threading
import time
import StringIO
from lib import Family
from h01 import token, TOKCHARS
import pyslet.rfc2616 as http
from pyslet.rfc2616_core import HTTPException
import pyslet.rfc2396 as uri

PROPERTY = 'H02'
logging.disable(logging.CRITICAL)


class Stall(Exception):
    pass


# ---------------------------------------------------------------- the server

class Reply(object):

    """One (final) response as the server will write it"""

    def __init__(self):
        self.interim = []
        self.early = False        # sent as soon as the head has been read
        self.broken = False       # not a well formed message
        self.trunc = None         # number of bytes actually sent
        self.close = False        # the server hangs up after it
        self.eof_framed = False
        self.data = ''            # wire bytes
        self.headers = {}
        self.delay = 0
        self.cont = '100'


class Server(object):

    """The server end of one connection: an independent request parser and a
    writer of scripted responses."""

    def __init__(self, world, host, port):
        self.world = world
        self.host = host
        self.port = port
        self.buf = ''
        self.state = 'head'
        self.req = None
        self.out = []              # [delay, bytes]
        self.written = 0           # bytes appended to out
        self.consumed = 0          # bytes taken by the client
        self.eof = False           # nothing more will be written
        self.eof_seen = False
        self.pending = []          # (id, end offset, eof framed)
        self.closed = False        # by the client
        self.send_failed = False
        self.served = []

    # -- output
    def write(self, delay, data):
        self.out.append([delay, data])
        self.written += len(data)

    def readable(self):
        if self.out:
            if self.out[0][0] > 0:
                self.out[0][0] -= 1
                return False
            return True
        return self.eof

    def take(self, n):
        got = []
        while self.out and n > 0 and self.out[0][0] <= 0:
            d = self.out[0][1]
            got.append(d[:n])
            if len(d) > n:
                self.out[0][1] = d[n:]
                n = 0
            else:
                del self.out[0]
                n -= len(d)
        got = ''.join(got)
        self.consumed += len(got)
        return got

    # -- input
    def feed(self, data):
        if self.eof:
            return
        self.buf += data
        while not self.eof and self.step():
            pass

    def fail(self, mech, *msg):
        self.world.m.violate(mech, ' '.join([repr(x) for x in msg]))
        self.eof = True

    def step(self):
        if self.state == 'head':
            p = self.buf.find('\r\n\r\n')
            if p < 0:
                return False
            lines = self.buf[:p].split('\r\n')
            self.buf = self.buf[p + 4:]
            sl = lines[0].split(' ')
            if len(sl) != 3 or sl[2] not in ('HTTP/1.1', 'HTTP/1.0') or not sl[1].startswith('/'):
                self.fail('request-line', lines[0], self.world.log)
                return False
            h = {}
            for l in lines[1:]:
                if ': ' not in l or l[0] in ' \t':
                    self.fail('request-header', l)
                    return False
                k, v = l.split(': ', 1)
                if k.lower() in h:
                    self.fail('request-header-twice', l)
                    return False
                h[k.lower()] = v
            self.req = dict(method=sl[0], target=sl[1], headers=h, body='', sock=self)
            self.world.arrived(self, self.req)
            if self.eof:
                return False
            te = h.get('transfer-encoding')
            if te is not None:
                self.state = 'size'
            elif 'content-length' in h:
                self.left = int(h['content-length'])
                self.state = 'body'
            else:
                self.left = 0
                self.state = 'body'
            return True
        if self.buf and self.state in ('body', 'size') and self.consumed < self.req.get('hold', 0) and self.world.cont_wait > 0 and (self.state != 'body' or self.left):
            self.fail('body-before-continue', self.req['target'], self.buf[:20])
            return False
        if self.state == 'body':
            n = min(self.left, len(self.buf))
            self.req['body'] += self.buf[:n]
            self.buf = self.buf[n:]
            self.left -= n
            if self.left:
                return False
            return self.complete()
        if self.state == 'size':
            p = self.buf.find('\r\n')
            if p < 0:
                return False
            line = self.buf[:p]
            try:
                self.left = int(line, 16)
            except ValueError:
                self.fail('request-chunk', line)
                return False
            self.buf = self.buf[p + 2:]
            self.state = 'chunk' if self.left else 'trailer'
            return True
        if self.state == 'chunk':
            if len(self.buf) < self.left + 2:
                return False
            self.req['body'] += self.buf[:self.left]
            if self.buf[self.left:self.left + 2] != '\r\n':
                self.fail('request-chunk-end', self.buf[:40])
                return False
            self.buf = self.buf[self.left + 2:]
            self.state = 'size'
            return True
        if self.state == 'trailer':
            if len(self.buf) < 2:
                return False
            if self.buf[:2] != '\r\n':
                self.fail('request-trailer', self.buf[:40])
                return False
            self.buf = self.buf[2:]
            return self.complete()

    def complete(self):
        self.state = 'head'
        self.req['complete'] = True
        self.world.completed(self, self.req)
        return True

    def respond(self, rid, reply):
        data = reply.data
        if reply.trunc is not None:
            data = data[:reply.trunc]
        # occasionally in pieces with gaps
        r = self.world.r
        d = reply.delay
        while data:
            n = len(data) if r.random() < 0.6 else r.randint(1, len(data))
            self.write(d, data[:n])
            data = data[n:]
            d = r.choice([0, 0, 1, 3])
        self.served.append((rid, self.written, reply))
        if reply.close or reply.trunc is not None or reply.broken:
            self.eof = True


class Sock(object):

    """What the client holds"""

    def __init__(self, world, server):
        self.world = world
        self.server = server

    def send(self, data):
        w = self.world
        if self.server.closed:
            raise socket.error(9, 'closed')
        if self.server.eof and w.r.random() < 0.3:
            self.server.send_failed = True
            if w.r.random() < 0.5:
                raise socket.error(32, 'Broken pipe')
            return 0
        n = len(data) if w.r.random() < w.bigsend else w.r.randint(1, min(len(data), 700))
        self.server.feed(data[:n])
        return n

    def recv(self, n):
        w = self.world
        s = self.server
        if s.out:
            m = n if w.r.random() < w.bigrecv else w.r.randint(1, min(n, w.small))
            got = s.take(m)
            if got:
                return got
            raise Stall('recv when not readable')
        if s.eof:
            s.eof_seen = True
            if w.r.random() < 0.1:
                s.reset = True
                raise socket.error(104, 'Connection reset by peer')
            return ''
        raise Stall('recv when not readable')

    def can_read(self):
        return self.server.closed or self.server.readable()

    def can_write(self):
        return self.world.r.random() < 0.8

    def shutdown(self, how):
        pass

    def close(self):
        if not self.server.closed:
            self.server.closed = True
            self.world.closed_one()


class World(object):

    def __init__(self, m, r, maxConnections=10, threaded=False):
        self.m = m
        self.r = r
        self.lock = threading.RLock()
        self.threaded = threaded
        self.plans = {}            # id -> Plan
        self.servers = []
        self.open = 0
        self.maxopen = 0
        self.log = []
        self.cont_wait = 60.0
        self.bigsend = r.choice([0.1, 0.5, 1.0])
        self.bigrecv = r.choice([0.0, 0.5, 1.0])
        self.small = r.choice([1, 3, 20, 200])
        self.stalls = 0
        world = self

        class Conn(http.Connection):

            def __init__(self, *args, **kw):
                http.Connection.__init__(self, *args, **kw)
                self.continueWaitMax = world.cont_wait

            def NewSocket(self):
                with self.connectionLock:
                    if self.connectionClosed:
                        raise HTTPException("Connection closed")
                    srv = Server(world, self.host, self.port)
                    with world.lock:
                        world.servers.append(srv)
                        world.open += 1
                        world.maxopen = max(world.maxopen, world.open)
                    self.socket = Sock(world, srv)
                    self.socketFile = self.socket
                    self.socketSelect = world.select_now

        class Manager(http.HTTPRequestManager):
            ConnectionClass = Conn

        self.manager = Manager(maxConnections=maxConnections)
        self.manager.socketSelect = self.select_wait

    def closed_one(self):
        with self.lock:
            self.open -= 1

    def select_now(self, rs, ws, es, timeout):
        return [s for s in rs if s.can_read()], [s for s in ws if s.can_write()], []

    def select_wait(self, rs, ws, es, timeout):
        for i in range(60):
            a, b, c = self.select_now(rs, ws, [], 0)
            if a or b:
                return a, b, c
            if self.threaded:
                time.sleep(0.0005)
        if self.cont_wait > 0 and not self.threaded:
            self.stalls += 1
            if self.stalls > 2:
                raise Stall('nothing to wait for: readers %d writers %d' % (len(rs), len(ws)))
        return [], [], []

    # -- request events
    def rid(self, req):
        try:
            return int(req['target'].split('?')[0].split('/')[-1])
        except ValueError:
            return None

    def arrived(self, server, req):
        m = self.m
        rid = self.rid(req)
        plan = self.plans.get(rid)
        if plan is None:
            server.fail('request-unknown', req['target'])
            return
        with self.lock:
            plan.seen.append(req)
            self.log.append((rid, req['method']))
            m.count('requests_seen')
        m.check(len(plan.seen) == 1, 'request-repeated', 'request', rid, req['method'], 'sent', len(plan.seen), 'times; log', self.log)
        m.eq(req['method'], plan.method, 'request-method', rid)
        m.eq(req['target'], plan.target, 'request-target', rid)
        m.eq((server.host, req['headers'].get('host')), (plan.host, plan.hosthdr), 'request-host', rid)
        for k, v in plan.headers.items():
            m.eq(req['headers'].get(k.lower()), v, 'request-header-value', rid, k)
        if plan.method == 'POST':
            m.count('posts')
            if server.served:
                m.check(server.consumed >= server.written, 'post-pipelined', 'POST sent before earlier responses were received', self.log)
        if server.served and server.consumed < server.written:
            m.count('pipelined')
        reply = plan.reply
        for data in reply.interim:
            server.write(self.r.choice([0, 0, 2]), data)
            m.count('interim')
            # any 1xx response ends the wait
            if plan.expect:
                req.setdefault('hold', server.written)
        if plan.expect:
            m.check(req['headers'].get('expect', '').lower() == '100-continue', 'request-expect', rid)
            if reply.early:
                pass
            elif reply.cont == '100':
                server.write(self.r.choice([0, 0, 2]), 'HTTP/1.1 100 Continue\r\n\r\n')
                req.setdefault('hold', server.written)
                m.count('continues')
            else:
                m.count('silent')
        if reply.early:
            m.count('early')
            plan.answered = True
            server.respond(rid, reply)

    def completed(self, server, req):
        rid = self.rid(req)
        plan = self.plans[rid]
        self.m.eq(req['body'], plan.body, 'request-body', rid, plan.method, req['headers'])
        self.m.count('bodies_seen')
        if not plan.answered:
            plan.answered = True
            server.respond(rid, plan.reply)

    def outcome(self, rid):
        """('ok'|'error'|'either', reply)"""
        for s in self.servers:
            for i, end, reply in s.served:
                if i == rid:
                    if s.consumed >= end and reply.trunc is None and not reply.broken and (not reply.eof_framed or s.eof_seen):
                        if s.send_failed or getattr(s, 'reset', False):
                            return 'either', reply
                        return 'ok', reply
                    if s.send_failed and reply.eof_framed:
                        return 'either', reply
                    return 'error', reply
        return 'error', None


class Plan(object):

    def __init__(self):
        self.seen = []
        self.answered = False
        self.headers = {}
        self.finished = 0


class Req(http.HTTPRequest):

    def Finished(self):
        self.plan.finished += 1
        http.HTTPRequest.Finished(self)


# -------------------------------------------------------------- generation

def data(r, big=True):
    k = r.random()
    if k < 0.15:
        return ''
    if k < 0.9 or not big:
        n = r.randint(1, 60)
    else:
        n = r.choice([8191, 8192, 8193, 20000])
    if n > 100:
        u = ''.join(chr(r.randrange(256)) for i in range(97))
        return (u * (n // 97 + 1))[:n]
    return ''.join(r.choice(['\r\n', '0\r\n\r\n', chr(r.randrange(256)), 'a', 'HTTP/1.1 200 OK\r\n\r\n']) for i in range(n))[:n]


def htext(r, lo=1, hi=12):
    s = ''.join(r.choice(TOKCHARS + ' ,;="()') for i in range(r.randint(lo, hi))).strip()
    return s


def head(r, status, reason, headers, version='HTTP/1.1'):
    """headers is a list of (name, value)"""
    out = []
    if reason:
        out.append('%s %d %s\r\n' % (version, status, reason))
    else:
        out.append('%s %d%s\r\n' % (version, status, r.choice(['', ' '])))
    for k, v in headers:
        k = r.choice([k, k.lower(), k.upper()])
        pre = r.choice([' ', ' ', '', '  ', '\t'])
        post = r.choice(['', '', ' '])
        if ' ' in v and r.random() < 0.2:
            i = v.index(' ')
            v = v[:i] + r.choice(['\r\n ', '\r\n\t', '\r\n  ']) + v[i + 1:]
        out.append('%s:%s%s%s\r\n' % (k, pre, v, post))
    out.append('\r\n')
    return ''.join(out)


def reason(r):
    return r.choice(['OK', '', 'Not "quite"', "It's (fine", 'a, b; c=d', 'caf\xe9', '[x] {y}', '404 600', htext(r, 0, 8)])


def interim(r):
    hs = []
    if r.random() < 0.4:
        hs.append(('X-Interim', htext(r)))
    if r.random() < 0.2:
        hs.append(('Content-Length', '5'))
    return head(r, r.choice([100, 102, 199]), reason(r), hs)


def chunked(r, body):
    out = []
    while body:
        n = r.randint(1, len(body))
        size = r.choice(['%x', '%X', '0%x', '000%x']) % n
        ext = r.choice(['', '', ';a', ';a=b', ' ; a="b"', ';q="x,y"'])
        out.append('%s%s\r\n%s\r\n' % (size, ext, body[:n]))
        body = body[n:]
    out.append(r.choice(['0', '000', '0;last']) + '\r\n')
    return ''.join(out)


def make_reply(r, plan, friendly=False):
    """A scripted response for plan"""
    y = Reply()
    y.delay = r.choice([0, 0, 0, 1, 4])
    statuses = [200, 200, 200, 201, 204, 206, 304, 400, 404, 409, 500, 503, 299, 599]
    if plan.norecirect:
        statuses += [301, 302, 307]
    y.status = r.choice(statuses)
    y.reason = reason(r)
    y.body = data(r)
    hs = [('X-Id', str(plan.rid))]
    for i in range(r.randrange(4)):
        hs.append((r.choice(['X-A', 'X-B', 'Server', 'Vary']), htext(r)))
    nobody = plan.method == 'HEAD' or y.status in (204, 304)
    version = 'HTTP/1.1'
    if nobody:
        k = r.randrange(3)
        if k == 0:
            hs.append(('Content-Length', str(r.choice([0, 7, 100000]))))
        elif k == 1 and plan.method == 'HEAD':
            hs.append(('Transfer-Encoding', 'chunked'))
        wire = ''
        y.body = ''
        y.framing = 'none'
    else:
        y.framing = r.choice(['cl', 'cl', 'chunked', 'chunked', 'close'])
        if friendly and y.framing == 'close':
            y.framing = 'cl'
        if y.framing == 'cl':
            if r.random() < 0.15:
                hs.append(('Transfer-Encoding', r.choice(['identity', 'Identity'])))
            hs.append(('Content-Length', r.choice(['%d', '0%d']) % len(y.body)))
            wire = y.body
        elif y.framing == 'chunked':
            hs.append(('Transfer-Encoding', r.choice(['chunked', 'Chunked'])))
            if r.random() < 0.2:
                hs.append(('Content-Length', str(r.choice([0, 3, 9999]))))
            wire = chunked(r, y.body)
        else:
            wire = y.body
            y.eof_framed = True
            y.close = True
    trailers = []
    if y.framing == 'chunked' and r.random() < 0.3:
        trailers = [('X-Trailer', htext(r)) for i in range(r.randint(1, 2))]
    if not friendly:
        k = r.random()
        if k < 0.12:
            y.close = True
            hs.append(('Connection', r.choice(['close', 'Close', 'x-y, close'])))
        elif k < 0.2:
            y.close = True
        elif k < 0.25 and y.framing != 'chunked':
            version = 'HTTP/1.0'
            y.close = True
    r.shuffle(hs)
    y.headers = {}
    for k, v in hs + trailers:
        k = k.lower()
        y.headers[k] = (y.headers[k] + ', ' + v) if k in y.headers else v
    y.data = head(r, y.status, y.reason, hs, version) + wire
    if y.framing == 'chunked':
        y.data += head(r, 1, '', trailers).split('\r\n', 1)[1]
    if not friendly:
        k = r.random()
        if k < 0.06:
            n = len(y.data)
            hd = y.data.index('\r\n\r\n') + 4
            y.trunc = r.randrange(n) if not y.eof_framed else r.randrange(hd)
        elif k < 0.1 and breakit(r, y, hs, wire):
            y.broken = True
            y.trunc = None
    if r.random() < 0.15:
        y.interim = [interim(r) for i in range(r.randint(1, 2))]
    if r.random() < 0.1 and not y.eof_framed:
        y.early = True
    y.cont = '100'
    return y


def breakit(r, y, hs, wire):
    k = r.randrange(5)
    if k == 0:
        y.data = r.choice(['garbage\r\n', 'HTTP/1.1\r\n', 'HTTP/1.1 abc OK\r\n', 'HTTP/x.1 200 OK\r\n', '\x00\xff\r\n', 'HTTP/1.1 99 Low\r\n', 'ICY 200 OK\r\n']) + y.data
    elif k == 1:
        i = y.data.index('\r\n') + 2
        y.data = y.data[:i] + r.choice(['no colon here\r\n', 'nocolon\r\n']) + y.data[i:]
    elif k == 2 and y.framing == 'cl':
        bad = [x for x in hs if x[0] != 'Content-Length'] + [('Content-Length', r.choice(['abc', '-5', '1 2', '5, 6', '0x10', '1e3', '']))]
        y.data = head(r, y.status, y.reason, bad) + wire
    elif k == 3 and y.framing == 'chunked':
        y.data = head(r, y.status, y.reason, hs) + r.choice(['xyz\r\nabc\r\n0\r\n\r\n', '-5\r\nabcde\r\n0\r\n\r\n', '\r\n0\r\n\r\n', '0x5\r\nabcde\r\n0\r\n\r\n', ' ;a\r\n0\r\n\r\n'])
    else:
        return False
    return True


METHODS = ['GET', 'GET', 'GET', 'HEAD', 'PUT', 'DELETE', 'OPTIONS', 'POST', 'POST']


def make_plan(world, r, rid, hosts, friendly=False):
    p = Plan()
    p.rid = rid
    p.host, p.port = r.choice(hosts)
    p.hosthdr = p.host if p.port == 80 else '%s:%d' % (p.host, p.port)
    p.method = r.choice(METHODS)
    p.target = '/%s/%d' % (r.choice(['r', 'a/b', 'x;y=z']), rid) + r.choice(['', '', '?q=%d&x' % r.randrange(99), '?'])
    url = 'http://%s%s%s' % (p.host, r.choice([':80', '', '']) if p.port == 80 else ':%d' % p.port, p.target)
    p.norecirect = r.random() < 0.3
    p.expect = False
    p.body = ''
    p.bodymode = 'none'
    kw = {}
    if p.method in ('PUT', 'POST', 'OPTIONS', 'DELETE') and r.random() < 0.8:
        p.body = data(r)
        p.bodymode = r.choice(['str', 'str', 'strchunked', 'stream', 'streamcl'])
        if p.bodymode.startswith('stream'):
            pre = 'skip' if r.random() < 0.3 else ''
            st = StringIO.StringIO(pre + p.body)
            st.seek(len(pre))
            kw['reqBody'] = st
        else:
            kw['reqBody'] = p.body
        p.expect = r.random() < 0.35
    p.resstream = None
    if r.random() < 0.3:
        p.resstream = StringIO.StringIO()
        p.resstream.write('before')
        kw['resBody'] = p.resstream
    q = Req(url, p.method, **kw)
    q.plan = p
    q.autoRedirect = not p.norecirect
    if p.bodymode == 'strchunked':
        q.SetTransferEncoding('chunked')
    elif p.bodymode == 'streamcl':
        q.SetContentLength(len(p.body))
    if p.expect:
        q.SetExpectContinue(True)
    for i in range(r.randrange(3)):
        k = 'X-' + token(r, 1, 4)
        if k.lower() in [x.lower() for x in p.headers]:
            continue
        p.headers[k] = htext(r)
        q.SetHeader(k, p.headers[k])
    p.reply = make_reply(r, p, friendly)
    if p.expect and not p.reply.early and world.cont_wait < 0 and r.random() < 0.5:
        p.reply.cont = 'silent'
        p.reply.interim = []
    world.plans[rid] = p
    p.request = q
    return p


def norm(v):
    return ' '.join(v.split())


def verify(m, world, p, ctx=''):
    q = p.request
    kind, y = world.outcome(p.rid)
    ctx = '%s id=%d %s body=%s expect=%s world=%s' % (ctx, p.rid, p.method, p.bodymode, p.expect, (world.bigsend, world.bigrecv, world.small))
    if y is not None:
        ctx += ' reply=%s %s%s%s%s early=%s close=%s interim=%d' % (y.status, y.framing, ' trunc' if y.trunc is not None else '', ' broken' if y.broken else '', ' eof' if y.eof_framed else '', y.early, y.close, len(y.interim))
    m.eq(p.finished, 1, 'finished-once', ctx)
    m.check(q.done, 'not-done', ctx)
    if kind == 'either':
        kind = 'error' if q.status == 0 else 'ok'
        m.count('either')
        if kind == 'ok' and y.eof_framed and q.error is not None:
            return
    if kind == 'error':
        m.count('failed')
        if y is not None and y.trunc is not None:
            m.count('truncated')
        if y is not None and y.broken:
            m.count('broken')
        m.check(q.status == 0 and q.error is not None, 'failure-unreported', 'status', q.status, 'error', q.error, 'body', q.resBody, ctx, repr(y.data[:300]) if y is not None else '')
        return
    m.count('delivered')
    m.count('framing_' + y.framing)
    if not m.check(q.status == y.status and q.error is None, 'status', 'got', q.status, q.error, ctx, repr(y.data[:300])):
        return
    m.eq(q.response.reason.strip(), y.reason, 'reason', ctx)
    got = {}
    for k in q.response.GetHeaderList():
        got[k] = norm(q.response.GetHeader(k))
    want = dict((k, norm(v)) for k, v in y.headers.items())
    m.eq(got, want, 'response-headers', ctx)
    if p.resstream is not None:
        m.eq(p.resstream.getvalue(), 'before' + y.body, 'response-stream', ctx)
    else:
        m.eq(q.resBody, y.body, 'response-body', ctx)


def run(m, world, limit=6000):
    n = 0
    try:
        while world.manager.ThreadTask(5):
            n += 1
            if n > limit:
                m.violate('stall', 'still busy after %d rounds; log %s' % (n, world.log))
                return False
    except Stall as e:
        m.violate('stall', '%s; log %s' % (e, world.log))
        return False
    m.count('rounds', n)
    return True


def f_exchange(m, r):
    w = World(m, r)
    if r.random() < 0.15:
        w.cont_wait = -1.0
    hosts = [('h1', 80), ('h2', 80), ('h1', 8080)][:r.choice([1, 1, 1, 2, 3])]
    n = r.choice([1, 2, 3, 4, 6, 9])
    batches = r.choice([1, 1, 2, 3])
    rid = 0
    desc = []
    for b in range(batches):
        plans = []
        for i in range(n):
            rid += 1
            p = make_plan(w, r, rid, hosts)
            plans.append(p)
            desc.append((p.method, p.bodymode, p.expect, p.reply.status, p.reply.framing, p.reply.early, p.reply.trunc is not None, p.reply.broken))
            w.manager.QueueRequest(p.request)
            if r.random() < 0.3:
                try:
                    w.manager.ThreadTask(0)
                except Stall as e:
                    m.violate('stall', '%s; log %s' % (e, w.log))
                    return
        if not run(m, w):
            return
        for p in plans:
            verify(m, w, p)
        m.eq(w.manager.ActiveCount(), 0, 'connections-active')
        if r.random() < 0.3:
            w.manager.IdleCleanup(-1)
            m.eq(w.open, 0, 'idle-cleanup')
    w.manager.Close()
    m.eq(w.open, 0, 'connections-open-after-close')
    m.count('connections', len(w.servers))
    m.key(repr((desc, w.log)))
    m.sample(repr(desc[:4]))


# ---------------------------------------------------------------- redirects

def f_redirect(m, r):
    w = World(m, r)
    hosts = [('h1', 80), ('h2', 80), ('h1', 8080)]
    n = r.randint(1, 4)
    plans = []
    method = r.choice(['GET', 'GET', 'HEAD', 'PUT', 'PUT', 'DELETE'])
    body = data(r) if method == 'PUT' else ''
    mode = r.choice(['str', 'strchunked', 'stream', 'streamcl']) if method == 'PUT' else 'none'
    host = r.choice(hosts)
    for i in range(n + 1):
        p = Plan()
        p.rid = i + 1
        p.method = method
        p.expect = False
        p.body = body
        p.bodymode = mode
        p.norecirect = False
        p.host, p.port = host
        p.hosthdr = p.host if p.port == 80 else '%s:%d' % (p.host, p.port)
        p.target = '/d/e/%d' % p.rid + r.choice(['', '?q=1'])
        plans.append(p)
        w.plans[p.rid] = p
        p.kind = r.choice(['abs', 'path', 'rel', 'up'])
        if p.kind == 'abs':
            host = r.choice(hosts)
    for i, p in enumerate(plans):
        p.reply = make_reply(r, p, True)
        p.reply.early = False
        p.reply.interim = []
        if i < n:
            t = plans[i + 1]
            loc = {'abs': 'http://%s%s' % (t.hosthdr, t.target), 'path': t.target, 'rel': t.target.split('/')[-1], 'up': '../e/./' + t.target.split('/')[-1]}[p.kind]
            p.reply.status = r.choice([301, 302, 303, 307] if method in ('GET', 'HEAD') else [301, 307])
            rbody = data(r, False) if method != 'HEAD' else ''
            hs = [('Location', loc), ('Content-Length', str(len(rbody)))]
            if r.random() < 0.2:
                p.reply.close = True
                hs.append(('Connection', 'close'))
            p.reply.data = head(r, p.reply.status, 'Moved', hs) + rbody
    last = plans[-1]
    if last.reply.status in (301, 302, 307):
        last.reply.status = 200
    kw = {}
    last.resstream = None
    if r.random() < 0.4:
        last.resstream = StringIO.StringIO()
        last.resstream.write('before')
        kw['resBody'] = last.resstream
    p = plans[0]
    if mode.startswith('stream'):
        kw['reqBody'] = StringIO.StringIO('skipped' + body)
        kw['reqBody'].seek(7)
    else:
        kw['reqBody'] = body
    q = Req('http://%s%s' % (p.hosthdr, p.target), method, **kw)
    q.plan = last
    last.request = q
    if mode == 'strchunked':
        q.SetTransferEncoding('chunked')
    elif mode == 'streamcl':
        q.SetContentLength(len(body))
    w.manager.QueueRequest(q)
    if not run(m, w):
        return
    m.eq([x[0] for x in w.log], range(1, n + 2), 'redirect-path', [(x.kind, x.reply.status, x.target, x.hosthdr) for x in plans])
    last.finished -= n
    verify(m, w, last, 'redirect')
    m.count('redirects', n)
    m.key(repr([(x.kind, x.reply.status, x.target, x.hosthdr) for x in plans]))
    # 304 (and other 3xx) with no Location is a final response
    w = World(m, r)
    p = make_plan(w, r, 1, hosts, True)
    p.norecirect = False
    p.request.autoRedirect = True
    p.reply.status = r.choice([300, 301, 304])
    if p.reply.status == 304:
        p.reply.framing = 'none'
        p.reply.body = ''
        p.reply.headers = {}
        p.reply.data = head(r, 304, '', [])
    else:
        p.reply.body = '' if p.method == 'HEAD' else 'gone'
        p.reply.headers = {'content-length': '4'}
        p.reply.data = head(r, p.reply.status, '', [('Content-Length', '4')]) + p.reply.body
    p.reply.reason = ''
    w.manager.QueueRequest(p.request)
    if run(m, w):
        verify(m, w, p, 'no location')
        m.count('no_location')


# ------------------------------------------------------------------ threads

def f_threads(m, r):
    limit = r.choice([1, 2, 3, 5])
    w = World(m, r, maxConnections=limit, threaded=True)
    hosts = [('h1', 80), ('h2', 80), ('h3', 80)][:r.randint(1, 3)]
    nt = r.randint(2, 6)
    work = []
    rid = 0
    for t in range(nt):
        mine = []
        for i in range(r.randint(1, 4)):
            rid += 1
            mine.append(make_plan(w, r, rid, hosts, friendly=r.random() < 0.7))
        work.append(mine)
    errors = []
    done = [0] * nt

    def body(t):
        try:
            for p in work[t]:
                w.manager.ProcessRequest(p.request, None if r.random() < 0.5 else 60)
                done[t] += 1
        except BaseException as e:
            errors.append('%s %s' % (type(e).__name__, e))

    ts = [threading.Thread(target=body, args=(t,)) for t in range(nt)]
    for t in ts:
        t.setDaemon(True)
        t.start()
    end = time.time() + 60
    cleaner = r.random() < 0.3
    while time.time() < end and [t for t in ts if t.isAlive()]:
        if cleaner:
            w.manager.IdleCleanup(0)
        for t in ts:
            t.join(0.002 if cleaner else 0.05)
            if cleaner:
                break
    if not m.check(not [t for t in ts if t.isAlive()], 'deadlock', 'threads', nt, 'limit', limit, 'done', done, 'of', [len(x) for x in work], 'active', w.manager.ActiveCount(), w.log):
        return
    m.check(not errors, 'thread-error', errors)
    for mine in work:
        for p in mine:
            verify(m, w, p, 'threads=%d limit=%d' % (nt, limit))
    # an idle connection removed by the cleaner is closed after its place is free
    m.check(w.maxopen <= limit or cleaner, 'too-many-connections', w.maxopen, '>', limit)
    m.eq(w.manager.ActiveCount(), 0, 'connections-active')
    w.manager.Close()
    m.eq(w.open, 0, 'connections-open-after-close')
    m.raises(http.ConnectionClosed, 'queue-after-close', w.manager.QueueRequest, http.HTTPRequest('http://h1/'))
    m.count('thread_runs')
    m.count('contended', 1 if nt > limit else 0)
    m.key(repr((nt, limit, w.log)))


FAMILIES = [
    Family('exchange', f_exchange, 7000, 90000),
    Family('redirect', f_redirect, 2500, 20000),
    Family('threads', f_threads, 500, 6000),
]
