"""H03 HTTP credentials go only where they may"""

import base64
from lib import Family
from h01 import token, quoted, sp, mixcase, anytext, TOKCHARS
import h02
import pyslet.rfc2616 as http
import pyslet.rfc2617 as auth
import pyslet.rfc2396 as uri
from pyslet.rfc2616_core import SyntaxError as HSyntaxError

PROPERTY = 'H03'


def realm(r):
    k = r.random()
    if k < 0.1:
        return ''
    if k < 0.5:
        return token(r)
    return ''.join(r.choice(TOKCHARS + ' ,="\\()') for i in range(r.randint(1, 12)))


# ------------------------------------------------------------- challenges

def f_challenge(m, r):
    """Lists of challenges written and parsed in any form"""
    model = []
    for i in range(r.randint(1, 3)):
        scheme = r.choice(['Basic', 'basic', 'BASIC', 'Digest', token(r, 2, 6, 'abcXYZ')])
        ps = []
        used = set()
        if r.random() < 0.85:
            ps.append((mixcase(r, 'realm'), realm(r)))
            used.add('realm')
        for j in range(r.randrange(3)):
            n = token(r, 1, 5, 'abcdNQ-')
            if n.lower() in used:
                continue
            used.add(n.lower())
            ps.append((n, token(r) if r.random() < 0.4 else anytext_clean(r)))
        r.shuffle(ps)
        model.append((scheme, ps))
    parts = []
    for scheme, ps in model:
        s = scheme
        if ps:
            s += ' ' + ' ' * r.randrange(2)
            s += (r.choice([',', ', ', ' , '])).join(n + sp(r, 0.1) + '=' + sp(r, 0.1) + (v if v and all(c in TOKCHARS for c in v) and r.random() < 0.4 else quoted(r, v)) for n, v in ps)
        parts.append(s)
    src = parts[0]
    for p in parts[1:]:
        src += r.choice([', ', ',', ' , ', ', ,']) + p
    m.key(src)
    try:
        got = auth.Challenge.ListFromString(src)
    except HSyntaxError as e:
        m.violate('challenge-refused', '%r: %s' % (src, e))
        return
    check_challenges(m, got, model, src)
    m.count('challenges', len(model))
    if len(model) > 1:
        m.count('challenge_lists')
    # formatted and parsed again, alone and through the response header
    for c, mod in zip(got, model):
        try:
            c2 = auth.Challenge.FromString(str(c))
        except HSyntaxError as e:
            m.violate('challenge-format', '%r from %r: %s' % (str(c), src, e))
            continue
        check_challenges(m, [c2], [mod], str(c))
    q = http.HTTPRequest('http://h/')
    a = http.HTTPResponse(q)
    a.SetWWWAuthenticate(got)
    check_challenges(m, a.GetWWWAuthenticate(), model, a.GetHeader('WWW-Authenticate'))


def anytext_clean(r):
    return ''.join(r.choice(TOKCHARS + ' ,="\\()') for i in range(r.randint(0, 8)))


def check_challenges(m, got, model, src):
    if not m.eq(len(got), len(model), 'challenge-count', repr(src), map(str, got)):
        return
    for c, (scheme, ps) in zip(got, model):
        m.eq(c.scheme.lower(), scheme.lower(), 'challenge-scheme', repr(src))
        for n, v in ps:
            for k in (n, n.lower(), n.upper()):
                if not m.check(k in c, 'challenge-param-missing', k, repr(src)):
                    return
                m.eq(c[k], v, 'challenge-param', k, repr(src))
        want = [(n, v) for n, v in ps]
        if not [1 for n, v in ps if n.lower() == 'realm']:
            want.append(('realm', 'Default'))
            m.count('default_realm')
            m.eq(c['realm'], 'Default', 'default-realm', repr(src))
        m.eq(sorted((n.lower(), v) for n, v, q in c), sorted((n.lower(), v) for n, v in want), 'challenge-params', repr(src))


BADCH = ['', '=', 'Basic realm', 'Basic realm=', 'Basic realm="x', 'Basic realm="x" y', '"Basic" realm="x"', 'Basic =x', 'Basic realm==x', 'Basic realm="x";y=z', 'Basic realm="x", y']


def f_basic(m, r):
    """Basic credentials out and back"""
    u = ''.join(chr(r.choice([r.randrange(32, 127), r.randrange(160, 256)])) for i in range(r.randint(0, 10))).replace(':', ';')
    p = ''.join(chr(r.choice([r.randrange(32, 127), r.randrange(160, 256), 58])) for i in range(r.randint(0, 10)))
    c = auth.BasicCredentials()
    c.userid = u
    c.password = p
    s = str(c)
    m.key(s)
    m.eq(s.split(' ', 1), ['Basic', base64.b64encode(u + ':' + p)], 'basic-format', repr((u, p)))
    for src in (s, mixcase(r, 'basic') + ' ' * r.randint(1, 2) + s.split(' ', 1)[1]):
        try:
            c2 = auth.Credentials.FromHTTPString(src)
        except HSyntaxError as e:
            m.violate('basic-refused', '%r %r: %s' % (src, (u, p), e))
            continue
        m.eq((c2.userid, c2.password), (u, p), 'basic-parse', repr(src))
    c3 = auth.BasicCredentials()
    c3.SetBasicCredentials(base64.b64encode(u + ':' + p))
    m.eq((c3.userid, c3.password), (u, p), 'basic-set', repr((u, p)))
    if ':' in p:
        m.count('colons')
    m.count('basics')
    bad = base64.b64encode(u) if u else 'a'
    m.raises(HSyntaxError, 'basic-bad', auth.Credentials.FromHTTPString, 'Basic ' + bad)
    m.raises(HSyntaxError, 'challenge-bad', auth.Challenge.FromString, r.choice(BADCH))
    m.raises(HSyntaxError, 'challenge-two', auth.Challenge.FromString, 'Basic realm="x", Digest realm="y"')


# ---------------------------------------------------------------- matching

HOSTS = ['a.com', 'b.com', 'a.com.evil.com', 'www.a.com', 'A.COM']
SEGS = ['x', 'y', 'xy', 'z', '']


def path(r):
    k = r.random()
    if k < 0.1:
        return '/'
    return '/' + '/'.join(r.choice(SEGS) for i in range(r.randint(1, 4)))


def urlfor(scheme, host, port, p):
    return '%s://%s%s%s' % (scheme, host, port, p)


def root(scheme, host, port):
    d = {'http': 80, 'https': 443}[scheme]
    return (scheme, host.lower(), int(port[1:]) if port not in ('', ':') else d)


def segments(p):
    """Path segments after removing dot segments"""
    out = []
    segs = p.split('/')[1:]
    for i, s in enumerate(segs):
        if s == '.':
            if i == len(segs) - 1:
                out.append('')
        elif s == '..':
            if out:
                out.pop()
            if i == len(segs) - 1:
                out.append('')
        else:
            out.append(s)
    return out


def within(prefix, p):
    a, b = segments(prefix), segments(p)
    if a and a[-1] == '':
        return len(b) >= len(a) and b[:len(a) - 1] == a[:-1]
    return b[:len(a)] == a


def target(r):
    scheme = r.choice(['http', 'http', 'https'])
    return scheme, r.choice(HOSTS), r.choice(['', '', ':80', ':443', ':8080', ':'])


def f_match(m, r):
    """Which URLs and challenges a credential is used for"""
    mgr = http.HTTPRequestManager()
    model = []
    for i in range(r.randint(1, 4)):
        c = auth.BasicCredentials()
        c.userid = 'u%d' % i
        c.password = 'p'
        t = target(r)
        c.protectionSpace = uri.URIFactory.URI(urlfor(t[0], t[1], t[2], r.choice(['', '/', '/q']))).GetCanonicalRoot()
        c.realm = r.choice([None, 'R1', 'R2'])
        ok = []
        for j in range(r.randrange(4)):
            p = path(r)
            c.AddSuccessPath(p)
            ok.append(p)
        mgr.AddCredentials(c)
        model.append((c, root(*t), c.realm, ok))
    if r.random() < 0.3 and len(model) > 1:
        k = r.randrange(len(model))
        mgr.RemoveCredentials(model[k][0])
        del model[k]
        m.count('removed')
    for i in range(12):
        t = target(r)
        if r.random() < 0.6:
            c, rt, rl, ok = r.choice(model)
            t = (rt[0], r.choice([rt[1], rt[1].upper()]), ':%d' % rt[2] if r.random() < 0.7 or rt[2] != {'http': 80, 'https': 443}[rt[0]] else '')
        p = path(r)
        if r.random() < 0.5:
            ok = r.choice(model)[3]
            if ok:
                p = r.choice(ok) + r.choice(['', '/x', 'x', '/', '/../y', '/./x', '?q=1'])
        u = uri.URIFactory.URI(urlfor(t[0], t[1], t[2], p))
        pp = p.split('?')[0]
        # dot segments that go above the root have no defined meaning
        must = None
        may = []
        for c, rt, rl, ok in model:
            inside = rt == root(*t) and [x for x in ok if within(x, pp)]
            m.eq(bool(c.TestURL(u)), bool(inside), 'test-url', str(u), 'space', str(c.protectionSpace), 'paths', ok)
            if inside:
                m.count('offered')
                may.append(c)
            elif rt != root(*t) and [x for x in ok if within(x, pp)]:
                m.count('same_path_other_host')
        got = mgr.FindCredentialsForURL(u)
        if not may:
            m.check(got is None, 'offered-outside', str(u), got and (str(got.protectionSpace), got.pathPrefixes))
            m.count('withheld')
        else:
            m.check(got is may[0], 'not-first', str(u), [x.userid for x in may], got and got.userid)
        # challenges
        scheme = r.choice(['Basic', 'Basic', 'basic', 'Digest'])
        ch = auth.Challenge.FromString('%s realm="%s"' % (scheme, r.choice(['R1', 'R2', 'r1', 'R3'])))
        ch.protectionSpace = u.GetCanonicalRoot()
        want = [c for c, rt, rl, ok in model if scheme.lower() == 'basic' and rt == root(*t) and (rl is None or rl == ch['realm'])]
        for c, rt, rl, ok in model:
            m.eq(bool(c.MatchChallenge(ch)), c in want, 'match-challenge', str(ch), str(ch.protectionSpace), str(c.protectionSpace), c.realm)
        got = mgr.FindCredentials(ch)
        m.check(got is (want[0] if want else None), 'find-credentials', str(ch), [x.userid for x in want], got and got.userid)
        m.count('challenged', 1 if want else 0)
    m.key(repr([(x[1], x[2], x[3]) for x in model]))


# ------------------------------------------------------- whole conversations

def f_conversation(m, r):
    """The Authorization headers that leave the client over a sequence of
    requests with 401s and redirects"""
    w = h02.World(m, r)
    creds = []
    spaces = [('http', 'h1', 80), ('http', 'h2', 80), ('http', 'h1', 8080)]
    users = {}
    for i in range(r.randint(1, 3)):
        c = auth.BasicCredentials()
        c.userid, c.password = 'user%d' % i, r.choice(['good', 'bad'])
        sp_ = r.choice(spaces)
        c.protectionSpace = uri.URIFactory.URI('%s://%s%s' % (sp_[0], sp_[1], '' if sp_[2] == 80 else ':%d' % sp_[2])).GetCanonicalRoot()
        c.realm = r.choice([None, 'R1'])
        w.manager.AddCredentials(c)
        creds.append((c, sp_))
        users[str(c)] = (c, sp_)
    state = dict(removed=set(), tried=[], accepted=[])

    class Srv(object):
        pass

    # the server: paths under /p need good credentials, /q redirects elsewhere
    log = []

    def arrived(server, req):
        a = req['headers'].get('authorization')
        key = (server.host, server.port)
        log.append((server.host, server.port, req['target'], a))
        m.count('seen')
        req['auth'] = a
        if a is not None:
            m.count('authorized')
            if not m.check(a in users, 'unknown-credentials', a):
                return
            c, s = users[a]
            m.check((s[1], s[2]) == key, 'credentials-leaked', 'credentials for', s, 'sent to', key, req['target'], 'log', log)

    def completed(server, req):
        y = h02.Reply()
        t = req['target']
        body = 'x'
        hs = []
        if t.startswith('/p'):
            a = req['auth']
            c = users[a][0] if a in users else None
            if c is not None and c.password == 'good':
                y.status = 200
                state['accepted'].append(a)
            else:
                y.status = 401
                rl = r.choice(['R1', 'R1', 'R2'])
                hs = [('WWW-Authenticate', r.choice(['Basic realm="%s"', 'Digest realm="d", Basic realm="%s"', 'Basic realm="%s", Digest realm="d"', 'basic realm="%s"', 'NTLM, Basic realm="%s"']) % rl)]
                req['challenge'] = rl
        elif t.startswith('/q'):
            y.status = r.choice([301, 302, 307])
            s = r.choice(spaces)
            loc = 'http://%s%s/%s' % (s[1], '' if s[2] == 80 else ':%d' % s[2], r.choice(['p/x', 'n/y', 'p/x/z']))
            if r.random() < 0.3:
                loc = r.choice(['/p/x', '/n/y'])
            hs = [('Location', loc)]
            m.count('redirected')
        else:
            y.status = 200
        hs.append(('Content-Length', '1'))
        y.data = h02.head(r, y.status, '', hs) + body
        if len(log) > 60:
            m.violate('endless', 'more than 60 requests: %s' % log[-6:])
            y.close = True
            y.data = ''
        server.respond(len(log), y)

    w.arrived = arrived
    w.completed = completed
    paths = []
    for i in range(r.randint(1, 6)):
        s = r.choice(spaces)
        t = r.choice(['/p/x', '/p/x/y', '/p/z', '/n/y', '/q/1', '/q/2', '/'])
        q = http.HTTPRequest('http://%s%s%s' % (s[1], '' if s[2] == 80 else ':%d' % s[2], t))
        before = len(log)
        known = dict((id(c), [list(x) for x in c.pathPrefixes]) for c, sp_ in creds)
        w.manager.QueueRequest(q)
        if not h02.run(m, w):
            return
        m.check(q.done, 'not-done', t)
        paths.append((s, t, q.status))
        mine = log[before:]
        # sent unasked only inside a path where it worked before
        if mine and mine[0][3] is not None and mine[0][3] in users:
            c, s2 = users[mine[0][3]]
            m.count('unasked')
            segs = segments(mine[0][2])
            m.check([x for x in known[id(c)] if within('/' + '/'.join(x), mine[0][2])], 'offered-unasked', mine[0], known[id(c)])
        # a failed credential is not tried again
        if q.status == 401:
            m.count('refused')
        if q.status == 200 and mine and mine[-1][3]:
            m.count('authenticated')
        for c, sp_ in creds:
            if c.password == 'bad':
                m.eq(c.pathPrefixes, [], 'bad-credentials-remembered', str(c), log)
    m.key(repr((paths, log)))


FAMILIES = [
    Family('challenge', f_challenge, 6000, 80000),
    Family('basic', f_basic, 4000, 50000),
    Family('match', f_match, 4000, 60000),
    Family('conversation', f_conversation, 2500, 30000),
]
