"""U01 URI references: parse, resolve, relativize, canonicalize, escape"""

import re
from lib import Family
import pyslet.rfc2396 as uri
import pyslet.rfc2616_params     # registers http and https
from pyslet.rfc2396 import URI, URIFactory, URIException, URIRelativeError

PROPERTY = 'U01'
UNRES = "abcXYZ019-_.!~*'()"
PCH = UNRES + ":@&=+$,"
ALLURIC = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.!~*'();/?:@&=+$,")


def esc(r):
    return '%' + r.choice('0123456789abcdefABCDEF') + r.choice('0123456789abcdefABCDEF')


def token(r, alphabet, lo, hi):
    return ''.join(esc(r) if r.random() < 0.1 else r.choice(alphabet) for i in range(r.randint(lo, hi)))


def segment(r, colon=True):
    k = r.randrange(10)
    if k < 6:
        s = r.choice(['a', 'b', 'c', 'd', 'index.html', 'x.y', '...', '.a', '..b'])
    else:
        s = token(r, PCH if colon else PCH.replace(':', ''), 1, 5)
        if s in ('.', '..'):
            s = 'e'
    if r.random() < 0.15:
        s += ';' + token(r, PCH, 0, 3)
    return s


def authority(r):
    s = ''
    if r.random() < 0.2:
        s += token(r, UNRES + ":;&=+$,", 0, 5) + '@'
    s += r.choice(['a', 'www.Example.com', 'localhost', '10.0.0.1', 'H-1.net'])
    if r.random() < 0.4:
        s += ':' + r.choice(['80', '443', '8080', '', '1'])
    return s


def query(r):
    return token(r, PCH + ';/?', 0, 6)


def dots(r, segs, depth):
    """insert . and .. without climbing above the root"""
    out = []
    d = depth
    for s in segs:
        while r.random() < 0.25:
            if r.random() < 0.5:
                out.append('.')
            elif d > 0:
                out.append('..')
                d -= 1
        out.append(s)
        d += 1
    if r.random() < 0.15:
        if d > 0 and r.random() < 0.5:
            out.append('..')
            d -= 1
        else:
            out.append('.')
    return out, d


def abspath(r, dotted=False):
    segs = [segment(r) for i in range(r.randint(0, 4))]
    if dotted:
        segs, d = dots(r, segs, 0)
    p = '/' + '/'.join(segs)
    if segs and segs[-1] not in ('.', '..') and r.random() < 0.3:
        p += '/'
    return p


def relpath(r, up=0, dotted=True):
    segs = [segment(r, False)] + [segment(r) for i in range(r.randint(0, 3))]
    if dotted:
        segs, d = dots(r, segs, up)
    p = '/'.join(segs)
    if segs[-1] not in ('.', '..') and r.random() < 0.3:
        p += '/'
    return p


SCHEMES = ['http', 'https', 'file', 'ftp', 'HTTP', 'x-a.b+c', 'FTP']


def ruri(r, kind=None):
    """(string, components)"""
    kind = kind or r.choice(['abs', 'abs', 'net', 'path', 'rel', 'opaque', 'empty', 'query'])
    c = dict(scheme=None, authority=None, path='', query=None, fragment=None, opaque=None)
    if kind == 'opaque':
        c['scheme'] = r.choice(['mailto', 'urn', 'news'])
        c['opaque'] = token(r, PCH.replace('/', ''), 1, 1) + token(r, PCH + ';/?', 0, 6)
    elif kind == 'abs':
        c['scheme'] = r.choice(SCHEMES)
        if r.random() < 0.8:
            c['authority'] = authority(r)
            c['path'] = r.choice(['', abspath(r), abspath(r), abspath(r, True)])
        else:
            c['path'] = abspath(r)
    elif kind == 'net':
        c['authority'] = authority(r)
        c['path'] = r.choice(['', abspath(r)])
    elif kind == 'path':
        c['path'] = abspath(r, r.random() < 0.3)
    elif kind == 'rel':
        c['path'] = relpath(r, 0)
    if kind != 'opaque' and (kind == 'query' or r.random() < 0.3):
        c['query'] = query(r)
    if r.random() < 0.3:
        c['fragment'] = query(r)
    return unsplit(c), c


def unsplit(c):
    s = ''
    if c['scheme'] is not None:
        s += c['scheme'] + ':'
    if c['opaque'] is not None:
        s += c['opaque']
    else:
        if c['authority'] is not None:
            s += '//' + c['authority']
        s += c['path']
        if c['query'] is not None:
            s += '?' + c['query']
    if c['fragment'] is not None:
        s += '#' + c['fragment']
    return s


def refauthority(a):
    """userinfo, host, port"""
    user = None
    if '@' in a:
        user, a = a.split('@', 1)
    if ':' in a:
        h, p = a.split(':', 1)
        return user, h, p
    return user, a, None


def fam_parse(m, r):
    s, c = ruri(r)
    m.key(s)
    src = unicode(s) if r.random() < 0.2 else s
    u = URIFactory.URI(src)
    m.eq(str(u), s, 'str', s)
    m.eq(u.scheme, c['scheme'], 'scheme', s)
    m.eq(u.IsAbsolute(), c['scheme'] is not None, 'absolute', s)
    m.eq(u.opaquePart, c['opaque'], 'opaque', s)
    m.eq(u.fragment, c['fragment'], 'fragment', s)
    m.eq(u.octets, s.split('#')[0], 'octets', s)
    if c['opaque'] is None:
        m.eq(u.authority, c['authority'], 'authority', s)
        m.eq(u.query, c['query'], 'query', s)
        if c['path'].startswith('/'):
            m.eq((u.absPath, u.relPath), (c['path'], None), 'path', s)
        elif c['scheme'] is None and c['authority'] is None:
            m.eq((u.absPath, u.relPath), (None, c['path']), 'path', s)
        else:
            m.check(not u.absPath and not u.relPath, 'path', s)
        if isinstance(u, uri.ServerBasedURL) and c['authority'] is not None:
            m.eq((u.userinfo, u.host, u.port), refauthority(c['authority']), 'server', s)
            m.count('servers')
        if c['authority'] is not None:
            m.eq(uri.SplitServer(c['authority']), refauthority(c['authority']), 'split-server', s)
        segs = c['path'].split('/')
        if c['path'].startswith('/'):
            m.eq(uri.SplitAbsPath(c['path']), segs[1:], 'split-path', s)
        elif c['path']:
            m.eq(uri.SplitRelPath(c['path']), segs, 'split-path', s)
        if c['path']:
            name = uri.UnescapeData(segs[-1])
            try:
                name = name.decode('utf-8')
            except UnicodeError:
                name = None
            if name is not None:
                m.eq(u.GetFileName(), name, 'filename', s)
        for seg in segs:
            m.eq(uri.SplitPathSegment(seg), (seg.split(';')[0], seg.split(';')[1:]), 'segment-params', seg)
    m.check(u == URIFactory.URI(s) and not (u != URIFactory.URI(s)), 'equality', s)
    # one illegal character anywhere outside the fragment is refused
    bad = r.choice(' <>"{}|\\^`[]\x00\x7f\n') if r.random() < 0.7 else r.choice(['%', '%4', '%zz', '%4g'])
    core = s.split('#')[0]
    i = r.randint(0, len(core))
    # a broken escape must stay broken
    if not (bad[0] == '%' and re.match('[0-9A-Fa-f]', core[i:i + 1])) and not re.search('%.?$', core[:i]):
        m.raises(URIException, 'illegal-character-accepted', URI, core[:i] + bad + core[i:])
        m.count('rejections')
    # unicode input is percent encoded utf-8
    n = r.choice([0xe9, 0x20ac, 0x4e2d, 0x7ff, 0x800, 0xfffd, 0x1F600])
    from java.lang import Character
    ch = unichr(n)
    i = r.randint(0, len(core))
    if not re.search('%.?$', core[:i]) and (c['scheme'] is None or i > len(c['scheme'])) and (c['scheme'] is not None or ':' not in core):
        u2 = URIFactory.URI(unicode(core[:i]) + ch + unicode(core[i:]))
        m.eq(str(u2), core[:i] + ''.join('%%%02X' % ord(b) for b in ch.encode('utf-8')) + core[i:], 'unicode', core)
        m.check(type(str(u2)) is str, 'unicode', core)
    m.count('parsed')


def normal(segs):
    """RFC 2396 5.2 step 6 c-f on the list of segments after the root"""
    out = []
    for i, s in enumerate(segs):
        last = i == len(segs) - 1
        if s == '.':
            if last:
                out.append('')
        elif s == '..' and out and out[-1] != '..':
            out.pop()
            if last:
                out.append('')
        else:
            out.append(s)
    return out


def refresolve(b, c):
    """RFC 2396 section 5.2 on component dicts; b hierarchical and absolute"""
    if c['scheme'] is not None:
        return unsplit(c)
    if c['authority'] is None and c['path'] == '' and c['query'] is None:
        return unsplit(dict(b, fragment=c['fragment']))
    o = dict(c, scheme=b['scheme'], opaque=None)
    if c['authority'] is None:
        o['authority'] = b['authority']
        if not c['path'].startswith('/'):
            base = b['path'][:b['path'].rfind('/') + 1] or '/'
            segs = (base + c['path']).split('/')[1:]
            o['path'] = '/' + '/'.join(normal(segs))
    return unsplit(o)


def depth(path):
    return len(normal(path.split('/')[1:])) - 1


def climbs(path, room):
    """does a relative path climb above room levels?"""
    d = room
    for s in path.split('/'):
        if s == '..':
            d -= 1
            if d < 0:
                return True
        elif s not in ('.',):
            d += 1
    return False


def fam_resolve(m, r):
    bs, b = ruri(r, 'abs')
    if r.random() < 0.6:
        b['path'] = abspath(r)
        bs = unsplit(b)
    k = r.choice(['rel', 'rel', 'rel', 'path', 'net', 'abs', 'empty', 'query', 'opaque'])
    rs, c = ruri(r, k)
    if k == 'rel' and r.random() < 0.6:
        room = max(0, depth(b['path'])) if b['path'] else 0
        c['path'] = '../' * r.randint(0, room) + c['path']
        rs = unsplit(c)
    if k == 'rel' and climbs(c['path'], max(0, depth(b['path'])) if b['path'] else 0):
        return
    if b['path'] == '' and k in ('rel', 'query', 'empty') and (c['path'] or c['query'] is not None):
        # RFC 2396 gives no meaning to a relative path and a base without one
        return
    if c['path'] == '' and c['query'] is not None and k == 'rel':
        return
    m.key((bs, rs))
    base, ref = URIFactory.URI(bs), URIFactory.URI(rs)
    got = ref.Resolve(base)
    want = refresolve(b, c)
    if '.' in b['path'].split('/') or '..' in b['path'].split('/'):
        if k in ('rel', 'query'):
            m.count('dotted_base')
    m.eq(str(got), want, 'resolve-' + k, bs, rs)
    m.eq(str(URIFactory.Resolve(bs, rs)), str(got), 'resolve-factory', bs, rs)
    m.check(got.IsAbsolute(), 'resolve-absolute', bs, rs)
    m.eq((str(base), str(ref)), (bs, rs), 'resolve-mutated', bs, rs)
    if k == 'empty' and c['query'] is None:
        ds, d = ruri(r, 'abs')
        got = ref.Resolve(base, URIFactory.URI(ds))
        m.eq(str(got), unsplit(dict(d, fragment=c['fragment'])), 'current-document', bs, rs, ds)
    m.count('resolved')


def fam_assoc(m, r):
    """(B * R1) * R2 == B * (R1 * R2)"""
    b = dict(scheme=r.choice(SCHEMES), authority=authority(r), path='/' + '/'.join(segment(r) for i in range(r.randint(3, 6))), query=None, fragment=None, opaque=None)
    def rel():
        p = relpath(r, r.randint(0, 1), True)
        c = dict(scheme=None, authority=None, path=p, query=query(r) if r.random() < 0.2 else None, fragment=None, opaque=None)
        return c
    c1, c2 = rel(), rel()
    bs, s1, s2 = unsplit(b), unsplit(c1), unsplit(c2)
    if climbs(c1['path'], depth(b['path'])) or c1['path'].split('/')[-1] in ('.', '..'):
        return
    u1 = URIFactory.Resolve(bs, s1)
    if climbs(c2['path'], depth(u1.absPath)):
        return
    # the combination of two relative references must itself be a relative
    # reference: a first segment with a colon would read as a scheme
    m.key((bs, s1, s2))
    left = URIFactory.Resolve(u1, s2)
    r12 = URIFactory.Resolve(s1, s2)
    if ':' in (str(r12).split('/')[0]):
        return
    right = URIFactory.Resolve(bs, r12)
    m.eq(str(left), str(right), 'associativity', bs, s1, s2, str(r12))
    m.count('associations')


def fam_relative(m, r):
    """B * (U / B) == U"""
    k = r.choice(['abs', 'abs', 'path', 'rel'])
    def one(like=None):
        c = dict(scheme=None, authority=None, path='', query=None, fragment=None, opaque=None)
        if k == 'abs':
            c['scheme'] = like['scheme'] if like else r.choice(SCHEMES)
            c['authority'] = like['authority'] if like else authority(r)
        if k == 'rel':
            n = r.randint(1, 4)
            c['path'] = '/'.join([r.choice('abc') for i in range(n)])
        else:
            n = r.randint(0, 4)
            c['path'] = '/' + '/'.join([r.choice(['a', 'b', 'c', segment(r)]) for i in range(n)])
        if c['path'] != '/' and c['path'] and r.random() < 0.3:
            c['path'] += '/'
        if r.random() < 0.3:
            c['query'] = query(r)
        return c
    b = one()
    u = one(b)
    if r.random() < 0.25:
        u['path'] = b['path']
    elif r.random() < 0.3:
        u['path'] = b['path'][:b['path'].rfind('/') + 1] + r.choice(['', 'z', 'a/b'])
        if k == 'rel' and not u['path']:
            u['path'] = 'a'
    elif r.random() < 0.2 and b['path'].count('/') > 1:
        # an ancestor of the base
        u['path'] = '/'.join(b['path'].split('/')[:r.randint(2, b['path'].count('/') + 1)])
    if k == 'abs' and r.random() < 0.1:
        u['authority'] = authority(r)
    if r.random() < 0.2:
        u['fragment'] = query(r)
    us, bs = unsplit(u), unsplit(b)
    m.key((us, bs))
    U, B = URIFactory.URI(us), URIFactory.URI(bs)
    rel = U.Relative(B)
    back = rel.Resolve(B)
    m.eq(str(back), us, 'relative-roundtrip-' + k, us, bs, str(rel))
    m.eq(str(URIFactory.Relative(us, bs)), str(rel), 'relative-factory')
    if k == 'abs' and u['authority'] == b['authority']:
        m.check(rel.scheme is None and rel.authority is None and rel.absPath is None, 'relative-form', us, bs, str(rel))
    # absolute against a different scheme is returned unchanged; less specified is refused
    other = 'zz' + us if k == 'abs' else us
    if k == 'abs':
        m.eq(str(URIFactory.URI(other).Relative(B)), other, 'relative-other-scheme', other, bs)
    else:
        m.raises(URIRelativeError, 'relative-of-less-specified', U.Relative, URIFactory.URI('http://a/b'))
    m.count('relatives')


def refcanon(c, s):
    if c['scheme'] is None:
        return None
    o = dict(c)
    o['scheme'] = c['scheme'].lower()
    sch = o['scheme']
    if c['opaque'] is None and sch in ('http', 'https', 'file') and c['authority'] is not None:
        user, host, port = refauthority(c['authority'])
        a = host.lower()
        if user is not None:
            a = user + '@' + a
        if port and int(port) != {'http': 80, 'https': 443}.get(sch):
            a += ':%d' % int(port)
        o['authority'] = a
    if sch in ('http', 'https') and c['opaque'] is None:
        o['path'] = decode_unreserved(c['path'])
        if not o['path'] and c['authority'] is not None:
            # RFC 2616 3.2.3: an empty abs_path is equivalent to "/"
            o['path'] = '/'
        if c['query'] is not None:
            o['query'] = decode_unreserved(c['query'])
    return unsplit(o)


def decode_unreserved(s):
    def sub(mt):
        ch = chr(int(mt.group(1), 16))
        return ch if ch.isalnum() and ord(ch) < 128 or ch in "-_.!~*'()" else mt.group(0)
    return re.sub('%([0-9a-fA-F]{2})', sub, s)


def fam_canon(m, r):
    s, c = ruri(r, r.choice(['abs', 'abs', 'abs', 'path', 'rel', 'opaque']))
    if c['fragment'] == '':
        c['fragment'] = None
        s = unsplit(c)
    m.key(s)
    u = URIFactory.URI(s)
    v = u.Canonicalize()
    m.eq(str(v.Canonicalize()), str(v), 'canonical-idempotent', s)
    m.check(u.Match(v) and v.Match(u) and u.Match(u), 'match', s, str(v))
    m.eq(str(u), s, 'canonical-mutated')
    want = refcanon(c, s)
    if want is not None:
        m.eq(str(v), want, 'canonical', s)
        # equivalent spellings match, different resources do not
        d = dict(c)
        d['scheme'] = c['scheme'].swapcase()
        if c['opaque'] is None and c['scheme'].lower() in ('http', 'https') and c['authority'] is not None:
            user, host, port = refauthority(c['authority'])
            a = host.swapcase()
            dp = {'http': '80', 'https': '443'}[c['scheme'].lower()]
            if port in (None, '', dp):
                a += r.choice(['', ':', ':' + dp])
            else:
                a += ':0' + port
            d['authority'] = (user + '@' if user is not None else '') + a
        w = URIFactory.URI(unsplit(d))
        m.check(u.Match(w) and w.Match(u), 'match-equivalent', s, str(w))
        if c['opaque'] is None:
            e = dict(c)
            e['path'] = (c['path'] or '/') + 'q'
            w = URIFactory.URI(unsplit(e))
            m.check(not u.Match(w), 'match-different', s, str(w))
            e = dict(c)
            e['query'] = (c['query'] or '') + 'q'
            w = URIFactory.URI(unsplit(e))
            m.check(not u.Match(w), 'match-different', s, str(w))
            if c['authority'] is not None:
                root = u.GetCanonicalRoot()
                o = dict(c, path='', query=None, fragment=None)
                m.check(root is not None and root.scheme == c['scheme'].lower() and root.absPath in (None, "/") and not root.relPath and root.query is None, 'canonical-root', s, str(root))
                m.eq(str(root.Canonicalize()), str(URIFactory.URI(unsplit(o)).Canonicalize()), 'canonical-root', s)
    m.count('canonical')


def fam_escape(m, r):
    n = r.randint(0, 20)
    data = ''.join(chr(r.choice([r.randrange(256), r.randrange(32, 127), 37])) for i in range(n))
    m.key(data)
    for f in (uri.IsReserved, uri.IsPathSegmentReserved, uri.IsQueryReserved, uri.IsAuthorityReserved, lambda x: False,
              lambda x: not uri.IsAlphaNum(x)):
        e = uri.EscapeData(data, f)
        m.eq(uri.UnescapeData(e), data, 'escape-roundtrip')
        m.eq(uri.ParseURIC(e), len(e), 'escape-gives-uric', e)
        bare = re.sub('%[0-9A-F]{2}', '', e)
        m.check(not [ch for ch in bare if f(ch) or ch not in ALLURIC], 'escape-leaves-reserved', e)
    e = uri.EscapeData(data)
    src = ''.join(esc(r) if r.random() < 0.4 else r.choice("ab/;?-_.!~") for i in range(r.randint(0, 8)))
    c = uri.CanonicalizeData(src)
    m.eq(c, decode_unreserved(src), 'canonicalize-data', src)
    m.eq(uri.UnescapeData(c), uri.UnescapeData(src), 'canonicalize-data-value', src)
    m.eq(uri.CanonicalizeData(c), c, 'canonicalize-data-idempotent', src)
    i = r.randint(0, len(e))
    bad = r.choice(' <>"{}|\\^`#')
    if '%' not in e[max(0, i - 2):i]:
        m.eq(uri.ParseURIC(e[:i] + bad + e[i:]), i, 'uric-prefix', e, i)
        m.eq(uri.ParseURIC('##' + e, 2), len(e), 'uric-pos', e)
    for ch in range(256):
        x = chr(ch)
        if ch == r.index % 256:
            m.eq(bool(uri.IsUnreserved(x)), x in "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.!~*'()", 'class-unreserved', ch)
            m.eq(bool(uri.IsReserved(x)), x in ';/?:@&=+$,', 'class-reserved', ch)
            m.eq(bool(uri.IsHex(x)), x in '0123456789abcdefABCDEF', 'class-hex', ch)
            m.eq(bool(uri.IsSchemeChar(x)), x.isalnum() and ch < 128 or x in '+-.', 'class-scheme', ch)
    m.count('escapes')


FAMILIES = [
    Family('parse', fam_parse, 16000, 160000),
    Family('resolve', fam_resolve, 20000, 200000),
    Family('assoc', fam_assoc, 12000, 120000),
    Family('relative', fam_relative, 16000, 160000),
    Family('canon', fam_canon, 12000, 120000),
    Family('escape', fam_escape, 8000, 80000),
]
