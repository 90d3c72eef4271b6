"""U02 file paths, virtual file paths and file URLs"""

import os
import sys
import shutil
import tempfile
from lib import Family
import pyslet.vfs as vfs
import pyslet.rfc2396 as uri
from pyslet.rfc2396 import URIFactory, FileURL
import u01

PROPERTY = 'U02'
CHARS = u"abcXYZ019 -_.!~*'();:@&=+$,%#?<>\"{}|\\^[]`\t\x01\x7f\xe9\xfc\u0100\u20ac\u4e2d\uffe6"
CODEC = sys.getfilesystemencoding() or 'utf-8'


class NamedFS(vfs.OSFilePath):
    """a second file system, registered under a name"""
    fsName = 'named.fs'

    def join(self, *c):
        return NamedFS(self, *c)

    def split(self):
        h, t = os.path.split(self.path)
        return NamedFS(h), NamedFS(t)

    def splitdrive(self):
        d, p = os.path.splitdrive(self.path)
        return NamedFS(d), NamedFS(p)

    def abspath(self):
        return NamedFS(os.path.abspath(self.path))


vfs.RegisterFileSystem(NamedFS)


def name(r, safe=False):
    while True:
        if r.random() < 0.5:
            n = r.choice([u'a', u'b', u'index.html', u'My File.txt', u'x%41y', u'a;b', u'\u82f1\u56fd.xml', u'C#', u'q?x=1'])
        else:
            n = u''.join(r.choice(CHARS) for i in range(r.randint(1, 8)))
        if n not in (u'.', u'..') and n:
            return n


def apath(r, lo=0):
    return u'/' + u'/'.join(name(r) for i in range(r.randint(lo, 5))) + (u'/' if r.random() < 0.15 and lo else u'')


def fam_url(m, r):
    """path -> file URL -> path"""
    p = apath(r)
    m.key(p)
    b = p.encode(CODEC)
    for src in (p, b):
        u = URIFactory.URLFromPathname(src)
        s = str(u)
        m.check(type(s) is str and uri.ParseURIC(s) == len(s), 'url-not-a-uri', p, s)
        m.check(isinstance(u, FileURL) and u.scheme == 'file' and u.fragment is None and u.query is None and not u.host, 'url-form', p, s)
        g = URIFactory.URI(s).GetPathname()
        if type(g) is unicode:
            g = g.encode(CODEC)
        m.eq(g, b, 'path-roundtrip', p, s)
        g = u.GetPathname(force8Bit=True)
        m.check(type(g) is str and g == b, 'path-roundtrip-8bit', p, s)
        m.eq(u.GetFileName(), p.split(u'/')[-1], 'file-name', p, s)
    v = vfs.OSFilePath(p)
    u2 = URIFactory.URLFromVirtualFilePath(v)
    m.eq(str(u2), str(u), 'virtual-and-native-urls-differ', p)
    w = u2.GetVirtualFilePath()
    m.check(isinstance(w, vfs.OSFilePath) and w == v and unicode(w) == p and hash(w) == hash(v), 'virtual-roundtrip', p, w)
    n = NamedFS(p)
    u3 = URIFactory.URLFromVirtualFilePath(n)
    m.eq(u3.host, 'named.fs', 'named-host', p, str(u3))
    w = URIFactory.URI(str(u3)).GetVirtualFilePath()
    m.check(isinstance(w, NamedFS) and unicode(w) == p, 'named-roundtrip', p, str(u3))
    m.raises(ValueError, 'unknown-host-accepted', URIFactory.URI('file://nowhere.invalid/a').GetVirtualFilePath)
    # distinct paths have distinct urls
    q = apath(r)
    m.check((str(URIFactory.URLFromPathname(q)) == str(u)) == (q == p), 'urls-not-injective', p, q)
    m.count('urls')


def fam_relative(m, r):
    """relative references between files resolve to the right file"""
    a, b = apath(r, 1), apath(r, 1)
    if r.random() < 0.6:
        pre = u'/' + name(r)
        a, b = pre + a, pre + b
    m.key((a, b))
    ua, ub = URIFactory.URLFromPathname(a), URIFactory.URLFromPathname(b)
    rel = ua.Relative(ub)
    m.check(rel.scheme is None and rel.authority is None, 'relative-form', a, b, str(rel))
    back = rel.Resolve(ub)
    m.eq(back.GetVirtualFilePath(), vfs.OSFilePath(a), 'relative-roundtrip', a, b, str(rel))
    # a relative path taken against the current directory
    rp = u'/'.join(name(r) for i in range(r.randint(1, 3)))
    u = URIFactory.URLFromPathname(rp.encode(CODEC))
    m.eq(u.GetVirtualFilePath(), vfs.OSFilePath(os.getcwd()).join(rp), 'cwd-relative', rp)
    if os.path.normpath(rp.encode(CODEC)) == rp.encode(CODEC):
        u = URIFactory.URLFromVirtualFilePath(vfs.OSFilePath(rp))
        m.eq(u.GetVirtualFilePath(), vfs.OSFilePath(os.getcwd()).join(rp), 'cwd-relative-virtual', rp)
    m.count('relatives')


def fam_ops(m, r):
    """virtual path algebra agrees with the operating system's path rules"""
    def comp():
        k = r.randrange(8)
        if k == 0:
            return apath(r)
        if k == 1:
            return r.choice([u'', u'.', u'..', u'/', u'//', u'../..'])
        return u'/'.join(r.choice([name(r), name(r), u'..', u'.']) for i in range(r.randint(1, 3))) + r.choice([u'', u'', u'/'])
    parts = [comp() for i in range(r.randint(1, 3))]
    m.key(parts)
    enc = [p.encode(CODEC) for p in parts]
    v = vfs.OSFilePath(*[r.choice([p, p.encode(CODEC), vfs.OSFilePath(p)]) for p in parts])
    want = os.path.join(*enc)
    m.eq(str(v), want, 'join', parts)
    m.eq(unicode(v), want.decode(CODEC), 'unicode', parts)
    m.check(vfs.OSFilePath(parts[0]).join(*parts[1:]) == v, 'join', parts)
    h, t = v.split()
    m.eq((str(h), str(t)), os.path.split(want), 'split', parts)
    m.check(isinstance(h, vfs.OSFilePath) and isinstance(t, vfs.OSFilePath), 'split-type')
    root, ext = v.splitext()
    m.eq((str(root), ext if type(ext) is str else ext.encode(CODEC)), os.path.splitext(want), 'splitext', parts)
    m.eq(str(v.normpath()), os.path.normpath(want), 'normpath', parts)
    m.eq(str(v.abspath()), os.path.abspath(want), 'abspath', parts)
    m.eq(v.isabs(), os.path.isabs(want), 'isabs', parts)
    m.eq(bool(v.IsSingleComponent()), '/' not in want, 'single', parts)
    m.eq(bool(v.IsEmpty()), want == '', 'empty', parts)
    m.eq(bool(v), want != '', 'nonzero', parts)
    m.eq(bool(v.IsDirLike()), want.endswith('/'), 'dirlike', parts)
    m.eq(bool(v.IsRoot()), want != '' and want.strip('/') == '', 'root', parts)
    m.check(not v.IsUNC(), 'unc')
    d, p = v.splitdrive()
    m.eq((str(d), str(p)), ('', want), 'splitdrive')
    o = comp()
    w = vfs.OSFilePath(o)
    m.eq(cmp(v, w), cmp(unicode(v), o), 'compare', parts, o)
    m.eq(v == o, unicode(v) == o, 'compare-string', parts, o)
    m.check(v == vfs.OSFilePath(v) and hash(v) == hash(vfs.OSFilePath(want)), 'copy', parts)
    m.raises(ValueError, 'cross-file-system-comparison', cmp, v, NamedFS(o))
    m.count('paths')


def model_tree(root):
    out = {}
    for dp, dn, fn in os.walk(root):
        rel = os.path.relpath(dp, root)
        out[rel] = (sorted(dn), sorted((f, open(os.path.join(dp, f), 'rb').read()) for f in fn))
    return out


def fam_files(m, r):
    """operations on real files, in a scratch directory, against a dict model"""
    base = tempfile.mkdtemp(dir=os.environ['VERIF_WORK'])
    top = vfs.OSFilePath(base)
    keep = top.join('outside')
    keep.mkdir()
    f = keep.join('precious').open('wb')
    f.write('x')
    f.close()
    root = top.join('root')
    root.mkdir()
    dirs, files = set([u'']), {}
    log = []

    def vp(rel):
        return root.join(*rel.split(u'/')) if rel else root

    def pick(s):
        return r.choice(sorted(s))
    names = [name(r).replace(u'/', u'_') for i in range(6)]
    for step in range(r.randint(4, 14)):
        k = r.randrange(7)
        d = pick(dirs)
        n = r.choice(names)
        p = (d + u'/' + n) if d else n
        log.append((k, p))
        if k == 0:
            if p in dirs or p in files:
                m.raises(OSError, 'mkdir-over-existing', vp(p).mkdir)
            else:
                vp(p).mkdir()
                dirs.add(p)
        elif k == 1:
            q = p + u'/' + r.choice(names)
            if p in files or p in dirs:
                continue
            vp(q).makedirs()
            dirs.update([p, q])
        elif k in (2, 3):
            if p in dirs:
                continue
            data = ''.join(chr(r.randrange(256)) for i in range(r.randint(0, 20)))
            f = vp(p).open('wb')
            f.write(data)
            f.close()
            files[p] = data
        elif k == 4 and files:
            src = pick(files)
            if p in dirs or p == src:
                continue
            vp(src).copy(vp(p))
            files[p] = files[src]
        elif k == 5 and files:
            p = pick(files)
            vp(p).remove()
            del files[p]
        elif k == 6:
            p = pick(dirs)
            if p and r.random() < 0.5:
                vp(p).rmtree()
                dirs = set(x for x in dirs if x != p and not x.startswith(p + u'/'))
                files = dict((x, y) for x, y in files.items() if not x.startswith(p + u'/'))
        # observe
        for x in list(dirs) + list(files) + [p, p + u'.none']:
            v = vp(x)
            m.eq((v.exists(), v.isfile(), v.isdir()), (x in dirs or x in files, x in files, x in dirs), 'exists', x, log)
        d = pick(dirs)
        pre = d + u'/' if d else u''
        kids = set(x[len(pre):] for x in list(dirs) + list(files) if x.startswith(pre) and x and u'/' not in x[len(pre):] and x != d)
        m.eq(sorted(unicode(x) for x in vp(d).listdir()), sorted(kids), 'listdir', d, log)
    seen = {}
    for dp, dn, fn in root.walk():
        m.check(isinstance(dp, vfs.OSFilePath), 'walk-type')
        seen[unicode(dp)] = (sorted(unicode(x) for x in dn), sorted(unicode(x) for x in fn))
    want = {}
    for d in dirs:
        pre = d + u'/' if d else u''
        kid = lambda s: sorted(x[len(pre):] for x in s if x.startswith(pre) and x and x != d and u'/' not in x[len(pre):])
        want[unicode(vp(d))] = (kid(dirs), kid(files))
    m.eq(seen, want, 'walk', log)
    for x, data in files.items():
        f = vp(x).open('rb')
        m.eq(f.read(), data, 'content', x, log)
        f.close()
        m.eq(vp(x).stat().st_size, len(data), 'stat', x)
    m.key(log)
    root.rmtree()
    m.check(not root.exists() and keep.join('precious').isfile() and os.listdir(base) == ['outside'], 'rmtree-scope', log)
    t = vfs.OSFilePath.mkdtemp('.d', 'p-')
    m.check(t.isdir() and unicode(t.split()[1]).startswith(u'p-') and unicode(t.split()[1]).endswith(u'.d') and not t.listdir(), 'mkdtemp', t)
    t.rmtree()
    t.rmtree(True)
    m.check(not t.exists(), 'rmtree')
    shutil.rmtree(base)
    m.count('trees')


FAMILIES = [
    Family('url', fam_url, 12000, 120000),
    Family('relative', fam_relative, 8000, 80000),
    Family('ops', fam_ops, 12000, 120000),
    Family('files', fam_files, 800, 8000),
]
