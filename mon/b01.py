# -*- coding: utf-8 -*-
"""B01 Basic LTI launches are accepted exactly when signed"""

import os
import re
import threading
import time as realtime
import StringIO
from lib import Family
import pyslet.imsbltiv1p0 as lti
from oauth import oauth
from java.lang import String
from java.util import Base64
from javax.crypto import Mac
from javax.crypto.spec import SecretKeySpec

PROPERTY = 'B01'
UNRES = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._~'


class Clock(object):
    """Stands for the time module of the library and of oauth"""

    def __init__(self):
        self.local = threading.local()

    def set(self, t):
        self.local.t = t

    def time(self):
        t = getattr(self.local, 't', None)
        return realtime.time() if t is None else t

    def __getattr__(self, n):
        return getattr(realtime, n)


CLOCK = Clock()
lti.time = CLOCK
oauth.time = CLOCK


def pct(s, safe=UNRES):
    return ''.join(c if c in safe else '%%%02X' % ord(c) for c in s)


def hmac(key, text):
    m = Mac.getInstance('HmacSHA1')
    m.init(SecretKeySpec(String(key).getBytes('ISO-8859-1'), 'HmacSHA1'))
    return str(String(Base64.getEncoder().encode(m.doFinal(String(text).getBytes('ISO-8859-1')))))


def base_string(method, url, params):
    """RFC 5849 3.4.1 (single valued parameters)"""
    i = url.index('://')
    scheme, rest = url[:i].lower(), url[i + 3:]
    host, slash, path = rest.split('?')[0].partition('/')
    host = host.lower()
    if scheme == 'http' and host.endswith(':80') or scheme == 'https' and host.endswith(':443'):
        host = host[:host.rindex(':')]
    l = sorted((pct(k), pct(v)) for k, v in params.items() if k != 'oauth_signature')
    return '&'.join([method.upper(), pct(scheme + '://' + host + slash + path), pct('&'.join(k + '=' + v for k, v in l))])


def signature(method, url, params, secret):
    return hmac(pct(secret) + '&', base_string(method, url, params))


NAMES = ['lti_message_type', 'lti_version', 'resource_link_id', 'user_id', 'roles', 'lis_person_name_full', 'context_id', 'custom_x', 'tool_consumer_info', 'ext:submit', 'launch_presentation_return_url', 'a b', 'x[0]', 'A', 'a']
VALUES = ['basic-lti-launch-request', 'LTI-1p0', '120988f929-274612', 'Instructor,Learner', u'J\xe9an \u82f1'.encode('utf-8'), 'a=b&c=d', 'http://lms.example/return?x=1&y=2#z', 'one two', '+', '~', "it's", '*', '"quoted"', '0', 'x' * 200, ' lead', 'two\nlines', ';', 'a/b']
KEYC = 'abcXYZ019._-:/@'


def key(r):
    return ''.join(r.choice(KEYC) for i in range(r.randint(1, 12)))


def secret(r):
    return ''.join(r.choice(KEYC + '%&=+~#') for i in range(r.randint(1, 16)))


def value(r):
    return r.choice(VALUES) if r.random() < .7 else ''.join(r.choice('ab &=+;/?#~!,.\xc3\xa9') for i in range(r.randint(1, 8)))


def provider(m, r, n):
    """A provider with n consumers given by a file or made by it"""
    tp = lti.BLTIToolProvider()
    cs = {}
    for i in range(n):
        k = key(r)
        while k in cs:
            k = key(r)
        if r.random() < .5:
            s = secret(r)
            tp.LoadFromFile(StringIO.StringIO('%s%s%s\n' % (k, ' ' * r.randint(1, 3), s)))
        elif r.random() < .5:
            g, s = tp.NewConsumer(k)
            m.check(g == k, 'new consumer key', g, k)
        else:
            k, s = tp.NewConsumer()
        cs[k] = s
    return tp, cs


class Launch(object):

    def __init__(self, r, now, k, s, nonce=None):
        self.method = r.choice(['POST', 'POST', 'GET', 'post'])
        self.url = r.choice(['http', 'https']) + '://' + r.choice(['tool.example.org', 'localhost', '127.0.0.1']) + r.choice(['', '', ':80', ':443', ':8080']) + r.choice(['/', '/launch', '/a/b.py', '/a%20b', '/~x/'])
        self.params = dict((r.choice(NAMES), value(r)) for i in range(r.randint(0, 7)))
        self.oauth = {'oauth_consumer_key': k, 'oauth_nonce': nonce or '%x' % r.getrandbits(64), 'oauth_timestamp': str(now - r.choice([0, 0, 1, 60, 299])), 'oauth_signature_method': 'HMAC-SHA1'}
        if r.random() < .7:
            self.oauth['oauth_version'] = '1.0'
        if r.random() < .4:
            self.oauth['oauth_callback'] = 'about:blank'
        self.query = set(n for n in self.params if r.random() < .25)
        self.where = r.choice(['header', 'body', 'body', 'url'])
        self.sign(s)

    def sign(self, s):
        p = dict(self.params)
        p.update(self.oauth)
        p.pop('oauth_signature', None)
        self.secret = s
        self.oauth['oauth_signature'] = signature(self.method, self.url, p, s)

    def parts(self, r):
        enc = lambda d: '&'.join(r.choice([pct, lambda s: pct(s).replace('%20', '+')])(k) + '=' + pct(v) for k, v in d)
        body = [(k, v) for k, v in self.params.items() if k not in self.query]
        url = [(k, v) for k, v in self.params.items() if k in self.query]
        headers = {'Host': 'x'}
        o = self.oauth.items()
        if self.where == 'header':
            r.shuffle(o)
            l = ['%s="%s"' % (k, pct(v)) for k, v in o]
            if r.random() < .5:
                l.insert(0, 'realm=""')
            headers['Authorization'] = 'OAuth ' + r.choice([', ', ',', ',\t'] if r.random() < .5 else [', ']).join(l)
        elif self.where == 'body':
            body += o
        else:
            url += o
        r.shuffle(body)
        r.shuffle(url)
        return self.method, self.url + ('?' + enc(url) if url else ''), headers, enc(body)

    def show(self):
        return (self.method, self.url, self.params, self.oauth, self.where, sorted(self.query), self.secret)


def fam_accept(m, r):
    """histories of launches at one provider"""
    now = r.randint(10 ** 6, 2 * 10 ** 9)
    CLOCK.set(float(now))
    try:
        tp, cs = provider(m, r, r.randint(1, 4))
        sent = []
        hist = []
        seen = set()
        for i in range(r.randint(2, 8)):
            if r.random() < .4:
                now += r.choice([1, 100, 299, 301, 1000, 5399, 5401, 20000])
                CLOCK.set(float(now) + r.choice([0, .25, .75]))
            k = r.choice(sorted(cs))
            if sent and r.random() < .35:
                # a replay, whatever the time and transport
                l = r.choice(sent)
                l.where = r.choice(['header', 'body', 'url'])
                m.raises((lti.BLTIAuthenticationError,), 'replay', tp.Launch, *l.parts(r))
                m.count('replays')
                hist.append(('replay', now))
                continue
            nonce = None
            if sent and r.random() < .3:
                # another consumer's nonce is no business of ours
                nonce = r.choice(sent).oauth['oauth_nonce']
                if (k, nonce) in seen:
                    nonce = None
                else:
                    m.count('shared_nonces')
            l = Launch(r, now, k, cs[k], nonce)
            p = l.parts(r)
            m.sample(repr(p))
            hist.append(l.show())
            try:
                c, got = tp.Launch(*p)
            except lti.BLTIError as ex:
                m.violate('refused', '%s %s: %r' % (l.show(), p, ex))
                return
            m.check(c is tp.lookup_consumer(k) and c.key == k and c.secret == cs[k], 'consumer', c.key, k)
            m.check(got == l.params, 'parameters', got, l.params, p)
            sent.append(l)
            seen.add((k, l.oauth['oauth_nonce']))
            m.count('accepted')
            m.count('accepted_' + l.where)
        m.key(repr(hist))
    finally:
        CLOCK.set(None)


def tamper(r, l, cs, now):
    """Changes a signed launch without signing it again"""
    t = r.choice(['value', 'value', 'add', 'remove', 'name', 'swap', 'method', 'host', 'port', 'scheme', 'path', 'key', 'unknown', 'secret', 'secret', 'signature', 'signature', 'nosig', 'nokey', 'nononce', 'notime', 'time', 'nonce', 'badtime', 'old', 'version', 'alg', 'noalg', 'plain', 'emptysig', 'case'])
    p, o = l.params, l.oauth
    if t == 'value' and p:
        k = r.choice(sorted(p))
        p[k] += r.choice(['x', ' ', '\xc3\xa9', '/', '&a=b'])
    elif t == 'add':
        p['extra_' + key(r)] = 'x'
    elif t == 'remove' and p:
        del p[r.choice(sorted(p))]
    elif t == 'name' and p:
        k = r.choice(sorted(p))
        p[k + 'x'] = p.pop(k)
    elif t == 'swap' and len(p) > 1:
        a, b = r.sample(sorted(p), 2)
        if p[a] == p[b]:
            return None
        p[a], p[b] = p[b], p[a]
    elif t == 'method':
        l.method = {'POST': 'GET', 'GET': 'POST', 'post': 'PUT'}[l.method]
    elif t == 'host':
        l.url = l.url.replace('://', '://evil.')
    elif t == 'port':
        l.url = re.sub('(://[^/:]*)(:[0-9]+)?', lambda g: g.group(1) + ':8181', l.url)
    elif t == 'scheme':
        l.url = l.url.replace('http:', 'HTTPS:', 1).replace('https:', 'http:').replace('HTTPS:', 'https:')
        if re.match('https?://[^/:]*:', l.url) is None:
            pass
    elif t == 'path':
        l.url += r.choice(['x', '/', '/..'])
    elif t == 'key':
        k = [k for k in cs if k != o['oauth_consumer_key'] and cs[k] != l.secret]
        if not k:
            return None
        o['oauth_consumer_key'] = r.choice(sorted(k))
    elif t == 'unknown':
        o['oauth_consumer_key'] = 'nobody' + key(r)
        if r.random() < .5:
            l.sign(l.secret)
    elif t == 'secret':
        s = r.choice([l.secret + 'x', l.secret[:-1], '', l.secret.swapcase(), o['oauth_consumer_key']] + sorted(cs.values()))
        if s == l.secret:
            return None
        l.sign(s)
    elif t == 'signature':
        s = o['oauth_signature']
        i = r.randint(0, len(s) - 2)
        o['oauth_signature'] = s[:i] + ('A' if s[i] != 'A' else 'B') + s[i + 1:]
    elif t == 'emptysig':
        o['oauth_signature'] = r.choice(['=', 'x', s0(l)])
    elif t in ('nosig', 'nokey', 'nononce', 'notime'):
        n = {'nosig': 'oauth_signature', 'nokey': 'oauth_consumer_key', 'nononce': 'oauth_nonce', 'notime': 'oauth_timestamp'}[t]
        del o[n]
        if t != 'nosig':
            l.sign(l.secret)
    elif t == 'time':
        o['oauth_timestamp'] = str(int(o['oauth_timestamp']) + r.choice([1, -1]))
    elif t == 'nonce':
        o['oauth_nonce'] += 'f'
    elif t == 'badtime':
        o['oauth_timestamp'] = r.choice(['now', 'x12', '12:00', '1.5e', '2026-11-20'])
        l.sign(l.secret)
    elif t == 'old':
        o['oauth_timestamp'] = str(now - r.choice([301, 302, 5000, 100000]))
        l.sign(l.secret)
    elif t == 'version':
        o['oauth_version'] = r.choice(['2.0', '1.1', '1', '1.0a'])
        l.sign(l.secret)
    elif t == 'alg':
        o['oauth_signature_method'] = r.choice(['RSA-SHA1', 'HMAC-SHA256', 'none', 'hmac-sha1', 'NONE'])
        l.sign(l.secret)
    elif t == 'noalg':
        del o['oauth_signature_method']
    elif t == 'plain':
        o['oauth_signature_method'] = 'PLAINTEXT'
        if r.random() < .7:
            o['oauth_signature'] = pct(r.choice([l.secret + 'x', '', o['oauth_consumer_key']])) + '&'
            if o['oauth_signature'] == pct(l.secret) + '&':
                return None
    elif t == 'case' and p:
        k = r.choice(sorted(p))
        v = p[k].swapcase()
        if v == p[k]:
            return None
        p[k] = v
    else:
        return None
    l.query = set(n for n in p if n in l.query)
    return t


def s0(l):
    return l.oauth['oauth_signature'].lower() if l.oauth['oauth_signature'].lower() != l.oauth['oauth_signature'] else 'z'


def fam_tamper(m, r):
    now = r.randint(10 ** 6, 2 * 10 ** 9)
    CLOCK.set(float(now))
    try:
        tp, cs = provider(m, r, r.randint(1, 4))
        for i in range(4):
            k = r.choice(sorted(cs))
            l = Launch(r, now, k, cs[k])
            before = l.show()
            p0 = l.parts(r)
            t = tamper(r, l, cs, now)
            if t is None:
                continue
            p = l.parts(r)
            m.key((t, repr(p)))
            m.raises((lti.BLTIAuthenticationError,), 'accepted after ' + t, tp.Launch, *p)
            m.count('tampered')
            m.count('tampered_' + t)
            if t not in ('unknown', 'key', 'nokey', 'nonce', 'nononce') and r.random() < .5:
                # the provider still works
                l = Launch(r, now, k, cs[k])
                c, got = tp.Launch(*l.parts(r))
                m.check(got == l.params and c.key == k, 'after a refusal', got, l.params)
        # plain text signatures: the secret itself
        k = r.choice(sorted(cs))
        l = Launch(r, now, k, cs[k])
        if not re.search('%[0-9A-Fa-f][0-9A-Fa-f]', pct(cs[k])):
            l.oauth['oauth_signature_method'] = 'PLAINTEXT'
            l.oauth['oauth_signature'] = pct(cs[k]) + '&'
            c, got = tp.Launch(*l.parts(r))
            m.check(c.key == k and got == l.params, 'plain text', got)
            m.count('plaintext')
        # nothing at all, or not OAuth
        h = r.choice([None, {}, {'Authorization': 'Basic eDp5'}, {'Authorization': 'OAuth '}, {'Authorization': 'OAuth x'}, {'Authorization': 'OAuth =,'}, {'Authorization': 'OAuth realm="x"'}])
        m.raises((lti.BLTIAuthenticationError,), 'unsigned', tp.Launch, r.choice(['GET', 'POST']), 'http://localhost/launch' + r.choice(['', '?a=b']), h, r.choice([None, '', 'a=b', 'user_id=1&roles=Instructor']))
        m.count('unsigned')
    finally:
        CLOCK.set(None)


def fam_nonce(m, r):
    """The nonce window itself"""
    t = float(r.randint(10 ** 6, 10 ** 9))
    try:
        c = lti.BLTIConsumer('k', 's')
        tp = lti.BLTIToolProvider()
        model = {}
        log = []
        for i in range(r.randint(3, 40)):
            t += r.choice([0, 0, 1, 10, 600, 2000, 5399, 5401])
            CLOCK.set(t)
            n = r.choice('abcdefg')
            first = model.get(n)
            log.append((t, n))
            used = c.CheckNonce(n) if r.random() < .5 else tp.lookup_nonce(c, None, n)
            if first is not None and t - first == 5400:
                model[n] = t if not used else first
                continue
            want = first is not None and t - first < 5400
            m.check(bool(used) == want, 'nonce', log, used, want)
            if not want:
                model[n] = t
            m.count('nonces_used' if want else 'nonces_new')
        m.key(repr(log))
    finally:
        CLOCK.set(None)


def fam_threads(m, r):
    """Simultaneous launches: each accepted once"""
    now = int(realtime.time())
    tp, cs = provider(m, r, 2)
    k = r.choice(sorted(cs))
    # a busy consumer
    old = [Launch(r, now, k, cs[k]) for i in range(r.choice([0, 10, 60]))]
    for i in range(r.choice([0, 300])):
        tp.lookup_consumer(k).CheckNonce('filler%d' % i)
    for l in old:
        tp.Launch(*l.parts(r))
    n = r.randint(1, 3)
    ls = [Launch(r, now, k, cs[k]) for i in range(n)]
    jobs = [(i, l.parts(r)) for i, l in enumerate(ls) for j in range(r.randint(2, 6))]
    r.shuffle(jobs)
    gate = threading.Event()
    won, odd = [], []

    def run(i, p):
        gate.wait()
        try:
            tp.Launch(*p)
            won.append(i)
        except lti.BLTIAuthenticationError:
            pass
        except Exception as ex:
            odd.append(repr(ex))
    ts = [threading.Thread(target=run, args=j) for j in jobs]
    for t in ts:
        t.start()
    gate.set()
    for t in ts:
        t.join(60)
    m.check(not odd, 'concurrent launch failed', odd)
    m.check(sorted(won) == range(n), 'concurrent launches accepted', sorted(won), n, len(jobs))
    for l in ls + old:
        m.raises((lti.BLTIAuthenticationError,), 'replay', tp.Launch, *l.parts(r))
    m.count('threads', len(jobs))
    m.count('orders')
    m.key((tuple(i for i, p in jobs), tuple(won), k))


def fam_keys(m, r):
    """Keys, secrets and the consumer file"""
    tp = lti.BLTIToolProvider()
    model = {}
    log = []
    for i in range(r.randint(1, 10)):
        op = r.choice(['new', 'new', 'auto', 'load', 'save', 'dup', 'duploaded', 'gen', 'weak', 'lookup'])
        log.append(op)
        if op == 'new' or op == 'auto':
            k = key(r) if op == 'new' else None
            if k in model:
                continue
            g, s = tp.NewConsumer(k) if k else tp.NewConsumer()
            m.check(g == (k or g) and g not in model and s not in model.values(), 'new consumer', log, g, s)
            form(m, s, 128)
            if not k:
                form(m, g, 128)
            model[g] = s
        elif op == 'dup' and model:
            k = r.choice(sorted(model))
            m.raises((lti.BLTIDuplicateKeyError,), 'duplicate key', tp.NewConsumer, k)
        elif op == 'load':
            src, add = '', {}
            for j in range(r.randint(0, 4)):
                k, s = key(r), secret(r)
                if k in model or k in add or k.startswith('#'):
                    continue
                c = r.random()
                if c < .2:
                    src += r.choice(['# %s %s\n' % (k, s), '#%s %s\n' % (k, s), '\n', '   \n', k + '\n'])
                else:
                    src += k + ' ' * r.randint(1, 4) + s + r.choice(['\n', '\n', '\r\n', ' \n', '\n\n'])
                    add[k] = s
            tp.LoadFromFile(StringIO.StringIO(src if r.random() < .8 else src.rstrip('\n')))
            model.update(add)
        elif op == 'duploaded' and model:
            k = r.choice(sorted(model))
            m.raises((lti.BLTIDuplicateKeyError,), 'duplicate key loaded', tp.LoadFromFile, StringIO.StringIO('# x\n%s other\n' % k))
        elif op == 'save':
            f = StringIO.StringIO()
            tp.SaveToFile(f)
            m.check(f.getvalue() == ''.join('%s %s\n' % (k, model[k]) for k in sorted(model)), 'saved', log, f.getvalue(), model)
            tp = lti.BLTIToolProvider()
            tp.LoadFromFile(StringIO.StringIO(f.getvalue()))
            m.count('saved')
        elif op == 'gen':
            n = r.randint(1, 300)
            form(m, tp.GenerateKey(n), n)
        elif op == 'weak':
            weak(m, r, tp)
        for k in model:
            c = tp.lookup_consumer(k)
            m.check(c is not None and c.key == k and c.secret == model[k] and isinstance(c, lti.BLTIConsumer), 'lookup', log, k)
        m.check(sorted(tp.consumers) == sorted(model), 'consumers', log, sorted(tp.consumers), sorted(model))
        m.check(tp.lookup_consumer('no such key') is None, 'unknown consumer')
        m.count('key_ops')
    m.key((tuple(log), repr(sorted(model.items()))))


def form(m, k, bits):
    m.check(re.match('^[0-9A-F]{4}([.][0-9A-F]{4})*$', k) is not None and 4 * 4 * len(k.split('.')) >= bits, 'key', k, bits)
    m.check(16 * (len(k.split('.')) - 1) < bits, 'key too long', k, bits)
    m.count('keys')


class OS(object):

    def __init__(self, f):
        self.urandom = f

    def __getattr__(self, n):
        return getattr(os, n)


def weak(m, r, tp):
    """what the key is made of"""
    n = r.randint(1, 200)
    data = []

    def f(k):
        data.append(os.urandom(k) if r.random() < .5 else chr(r.randint(0, 255)) * k)
        return data[-1]

    def g(k):
        raise NotImplementedError
    try:
        lti.os = OS(f)
        k = tp.GenerateKey(n)
        form(m, k, n)
        m.check(k.replace('.', '') == ''.join(data).encode('hex').upper(), 'random bytes', k, data)
        lti.os = OS(g)
        form(m, tp.GenerateKey(n), n)
    finally:
        lti.os = os
    m.count('weak')


FAMILIES = [
    Family('accept', fam_accept, 900, 30000),
    Family('tamper', fam_tamper, 1000, 30000),
    Family('nonce', fam_nonce, 1000, 20000),
    Family('threads', fam_threads, 150, 3000, serial=True),
    Family('keys', fam_keys, 800, 12000),
]
