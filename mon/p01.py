# -*- coding: utf-8 -*-
"""P01 content packages keep manifest, files and zip in step"""

import __builtin__
import errno
import os
import posixpath
import shutil
import sys
import tempfile
import urllib
import zipfile
import random as _random
from lib import Family
import odh
import pyslet.imscpv1p2 as cp
import pyslet.rfc2396 as uri
import pyslet.vfs as vfs
import pyslet.xmlnames20091208 as xmlns
from java.util.zip import ZipFile as JZip
from java.io import File as JFile, ByteArrayOutputStream
import jarray

PROPERTY = 'P01'
IMSCP = 'http://www.imsglobal.org/xsd/imscp_v1p1'
XMLBASE = ('http://www.w3.org/XML/1998/namespace', 'base')

# --- containment: nothing below a case's root may be touched by the package --
ROOT = [None]
ESCAPES = []


def _real(p):
    if isinstance(p, vfs.VirtualFilePath):
        p = p.path
    if isinstance(p, unicode):
        p = p.encode('utf-8')
    d, b = os.path.split(os.path.abspath(p))
    return os.path.join(os.path.realpath(d), b)


def _guard(name, f, idx=0, mode=None):
    def g(*a, **k):
        if ROOT[0] is not None and len(a) > idx:
            md = a[1] if mode and len(a) > 1 else k.get('mode', 'r')
            if (mode is None or any(c in md for c in 'wa+')) and not isinstance(a[idx], (int, long)):
                p = _real(a[idx])
                if not any(p.startswith(x + '/') or p == x for x in ROOT[0]):
                    ESCAPES.append((name, p))
                    raise OSError(errno.EPERM, 'blocked', p)
        return f(*a, **k)
    return g


OPEN = __builtin__.open
ORIG = dict((n, getattr(os, n)) for n in ('remove', 'unlink', 'rmdir', 'mkdir', 'rename', 'makedirs', 'symlink', 'chmod') if hasattr(os, n))
RMTREE = shutil.rmtree


class Inside(object):
    """Calls of the package under test: writes are confined to the given directories"""

    def __init__(self, *dirs):
        self.dirs = [os.path.realpath(d) for d in dirs]

    def __enter__(self):
        ROOT[0] = self.dirs
        del ESCAPES[:]
        for n, f in ORIG.items():
            setattr(os, n, _guard(n, f, 1 if n in ('rename', 'symlink') else 0))
        shutil.rmtree = _guard('rmtree', RMTREE)
        __builtin__.open = _guard('open', OPEN, mode='r')

    def __exit__(self, *a):
        ROOT[0] = None
        for n, f in ORIG.items():
            setattr(os, n, f)
        shutil.rmtree = RMTREE
        __builtin__.open = OPEN


def put(path, data):
    d = os.path.dirname(path)
    if not os.path.isdir(d):
        os.makedirs(d)
    f = OPEN(path, 'wb')
    f.write(data)
    f.close()


def get(path):
    f = OPEN(path, 'rb')
    try:
        return f.read()
    finally:
        f.close()


def u8(p):
    return p.encode('utf-8') if isinstance(p, unicode) else p


def snapshot(top):
    """{relative path: content, or None for a directory}"""
    out = {}
    top = u8(top)
    for d, ds, fs in os.walk(top):
        rel = os.path.relpath(d, top)
        for n in ds:
            n = u8(n)
            out[posixpath.normpath(posixpath.join(rel, n))] = None
        for n in fs:
            n = u8(n)
            out[posixpath.normpath(posixpath.join(rel, n))] = get(os.path.join(d, n))
    return out


def ignored(rel):
    return any(s.startswith('.') and s not in ('.', '..') for s in rel.split('/'))


NAMES = [u'a.txt', u'b c.html', u'50%.xml', u'q?.txt', u'h#1.png', u'\xe9t\xe9.txt', u'A&B.xml', u"it's.txt", u'x;y.txt', u'UP.TXT', u'noext', u'dots.tar.gz', u'[x].txt', u'~t', u'\u82f1\u56fd.xml', u'p+q=r.css', u'%41.txt',
         u'imsmanifest.xml', u'_x.y', u'1_2.txt', u'a_FF.txt', u'"quoted".txt', u'<t>.xml', u'back\\slash.txt', u'x,y@z!$.txt']
DIRS = [u'dir', u'sub dir', u'\u82f1', u'Dir2', u'd%20', u'deep']


def fname(r):
    return r.choice(NAMES) if r.random() < .8 else u''.join(r.choice(u'abcXYZ 019_-\xe9.') for i in range(r.randint(1, 6))).strip(u' .') + u'z.t'


def relpath(r, maxd=2):
    n = r.choice([0, 0, 1, 1, 2])
    segs = [r.choice(DIRS) for i in range(min(n, maxd))]
    p = u'/'.join(segs + [fname(r)])
    return p


def quote(r, p):
    q = urllib.quote(u8(p), r.choice(['/', "/!$&'()*+,=@~", '/_']))
    if r.random() < .1:
        q = q.replace('%', '%').lower() if q.upper() == q.lower() else q
    return q


def unhref(base, href):
    """The absolute path an href names, from an absolute file path base"""
    href = href.split('#')[0].split('?')[0]
    p = posixpath.join(posixpath.dirname(base), urllib.unquote(href)) if href else base
    return posixpath.normpath(p)


def href_of(r, base, path):
    """A relative reference from directory *base* (relative path) to *path*"""
    q = posixpath.relpath(u8(path), u8(base) or '.')
    return quote(r, q) if ':' not in q.split('/')[0] else './' + quote(r, q)


class Res(object):
    def __init__(self):
        self.id = self.type = self.base = None
        self.files = []     # (element, package path or None, href)
        self.deps = []
        self.entry = None


class World(object):
    def __init__(self, m, r):
        self.m, self.r = m, r
        self.top = tempfile.mkdtemp('p01', dir=os.environ['VERIF_WORK'])
        self.tmp = os.path.join(self.top, 'tmp')
        self.out = os.path.join(self.top, 'outside')
        os.mkdir(self.tmp)
        for n in ('precious.txt', 'pkg-other/a.txt', 'imsmanifest.xml', '.dot/x', 'src/a.txt', 'src/UP.TXT', 'src/50%.xml', 'src/imsmanifest.xml', 'src/.hid'):
            put(os.path.join(self.out, n), 'outside:' + n)
        put(os.path.join(self.out, 'src', u8(u'\xe9 x.txt')), 'outside accents')
        self.before = snapshot(self.out)
        self.files = {}
        self.dirs = set()
        self.res = []
        self.log = []
        self.dir = os.path.join(self.out, 'pkg')
        tempfile.tempdir = self.tmp
        self.cp = None

    def close(self):
        tempfile.tempdir = None
        RMTREE(self.top, True)

    def guard(self):
        return Inside(self.pdir(), self.tmp, self.top + '/zips')

    def pdir(self):
        return u8(str(self.cp.dPath)) if self.cp is not None else self.dir

    def outside_ok(self, what):
        self.m.check(not ESCAPES, 'escape', what, ESCAPES, self.log[-6:])
        now = snapshot(self.out)
        for k in list(now):
            if k == 'pkg' or k.startswith('pkg/'):
                del now[k]
        self.m.check(now == self.before, 'outside changed', what, sorted(set(now.items()) ^ set(self.before.items()))[:4], self.log[-6:])

    def manifest_path(self):
        return os.path.join(self.pdir(), 'imsmanifest.xml')

    def check(self, what):
        m = self.m
        self.outside_ok(what)
        # disk
        want = dict((u8(k), v) for k, v in self.files.items())
        got = dict((k, v) for k, v in snapshot(self.pdir()).items() if v is not None and k != 'imsmanifest.xml')
        m.check(got == want, 'disk', what, sorted(set(got.items()) ^ set(want.items()))[:4], self.log)
        m.check(os.path.isfile(self.manifest_path()), 'manifest missing', what, self.log)
        # file table
        table = {}
        for k in self.files:
            if not ignored(k):
                table[k] = []
        for x in self.res:
            for e, p, h in x.files:
                if p is not None:
                    table.setdefault(p, []).append(e)
        got = dict((unicode(k), sorted(map(id, v))) for k, v in self.cp.fileTable.items())
        want = dict((k, sorted(map(id, v))) for k, v in table.items())
        m.check(got == want, 'file table', what, sorted(got), sorted(want), self.log)
        m.check(len(got) == len(self.cp.fileTable), 'table keys', sorted(got))
        # manifest
        els = self.cp.manifest.root.Resources.Resource
        m.check([e.id for e in els] == [x.id for x in self.res], 'resources', [e.id for e in els], self.log)
        for e, x in zip(els, self.res):
            m.check(len(e.File) == len(x.files) and all(a is b[0] for a, b in zip(e.File, x.files)), 'files', what, [str(f.href) for f in e.File], x.files, self.log)
            m.check([d.identifierref for d in e.Dependency] == x.deps, 'deps', self.log)
            ep = e.GetEntryPoint()
            m.check((None if ep is None else id(ep)) in self.entries(x), 'entry', what, x.entry, self.log)
            for f, p, h in x.files:
                got = f.PackagePath(self.cp)
                m.check((None if got is None else unicode(got)) == p, 'package path', what, got, p, str(f.href))
                if p is not None:
                    base = self.manifest_path()
                    if x.base:
                        base = posixpath.join(posixpath.dirname(base), u8(x.base), '')
                    m.check(unhref(base, str(f.href)) == os.path.join(self.pdir(), u8(p)), 'href', what, str(f.href), p, x.base)
        m.count('states')

    def entries(self, x):
        """ids of the file elements that may be the entry point"""
        if x.entry is None:
            return [None]
        kind, v = x.entry
        l = [id(e) for e, p, h in x.files if (p == v if kind == 'path' else h == v)]
        return l or [None]

    # --- operations -----------------------------------------------------------
    def op_resource(self):
        r = self.r
        x = Res()
        with self.guard():
            R = self.cp.manifest.root.Resources
            e = R.ChildElement(R.ResourceClass)
            x.id = self.cp.manifest.GetUniqueID(r.choice([u'R', u'res', u'\xe9']))
            self.m.check(x.id not in [y.id for y in self.res] + [self.cp.manifest.root.id], 'unique id', x.id, self.log)
            e.SetID(x.id)
            x.type = r.choice([u'webcontent', u'imsqti_item_xmlv2p1', u'x & y'])
            e.type = x.type
            if r.random() < .25:
                x.base = r.choice([u'dir/', u'sub dir/', u'dir/deep/'])
                e.SetBase(urllib.quote(u8(x.base)))
        x.el = e
        self.res.append(x)
        self.log.append(('resource', x.id, x.base))

    def taken(self, p):
        return p in self.files or p == u'imsmanifest.xml' or any(q == p for x in self.res for e, q, h in x.files)

    def unique(self, s, arg, what):
        """checks on the result of GetUniqueFile for the suggested package path s"""
        m = self.m
        with self.guard():
            got = self.cp.GetUniqueFile(arg)
        p = unicode(got)
        m.check(isinstance(got, vfs.VirtualFilePath) and not got.isabs() and u8(p) == posixpath.normpath(u8(p)) and not p.startswith(u'..'), 'unique path form', s, p)
        m.check(not self.taken(p), 'not unique', s, p, self.log)
        if not self.taken(s) and s not in self.dirs:
            m.check(p == s, 'needlessly renamed', s, p)
        else:
            m.check(posixpath.splitext(p)[1] == posixpath.splitext(s)[1] and posixpath.dirname(p) == posixpath.dirname(s) and p.startswith(posixpath.splitext(s)[0]), 'unique name', s, p)
            m.count('renamed')
        return p

    def op_new(self):
        """create a file and refer to it from a resource"""
        r = self.r
        s = relpath(r)
        if r.random() < .3 and self.files:
            s = r.choice(sorted(self.files))
            if ignored(s):
                return
        x = r.choice(self.res) if self.res else None
        if r.random() < .5:
            arg = r.choice([s, u8(s), vfs.OSFilePath(s), u'./' + s, u'zz/../' + s])
            s = s.lower()
        else:
            arg = r.choice([vfs.OSFilePath(self.pdir(), s), os.path.join(self.pdir(), u8(s)), os.path.join(self.pdir(), 'dir', '..', u8(s))])
        p = self.unique(s, arg, 'new')
        self.log.append(('new', s, p))
        if self.conflict(p):
            return
        data = 'data %i %s' % (len(self.log), u8(p))
        put(os.path.join(self.pdir(), u8(p)), data)
        self.add(p, data)
        if x is None:
            with self.guard():
                self.cp.RebuildFileTable()
            return
        self.refer(x, p)

    def add(self, p, data):
        self.files[p] = data
        d = posixpath.dirname(p)
        while d:
            self.dirs.add(d)
            d = posixpath.dirname(d)

    def conflict(self, p):
        """is a parent of p a file, or p a directory?"""
        if p in self.dirs:
            return True
        d = posixpath.dirname(p)
        while d:
            if d in self.files or d == u'imsmanifest.xml':
                return True
            d = posixpath.dirname(d)
        return False

    def refer(self, x, p):
        r = self.r
        h = href_of(r, x.base or u'', p)
        c = r.random()
        if c < .25:
            h = 'file://' + quote(r, os.path.join(self.pdir(), u8(p)))
        elif c < .4:
            h = r.choice(['./', 'qq/../', './zz/..//'.replace('//', '/')]) + h
        with self.guard():
            f = self.cp.File(x.el, uri.URIFactory.URI(h))
        self.log.append(('file', x.id, p, h))
        x.files.append((f, p, str(f.href)))
        return f

    def op_refer(self):
        if self.res and self.files:
            p = self.r.choice(sorted(self.files))
            if self.r.random() < .15:
                p = u'gone/%d.txt' % len(self.log)
            if not ignored(posixpath.basename(p)):
                self.refer(self.r.choice(self.res), p)

    def op_external(self):
        if not self.res:
            return
        x = self.r.choice(self.res)
        h = self.r.choice(['http://www.example.com/x.html', 'https://h/y', 'urn:x:y', 'mailto:a@b'])
        with self.guard():
            f = self.cp.File(x.el, uri.URIFactory.URI(h))
        self.log.append(('external', h))
        self.m.check(str(f.href) == h, 'external href', h, str(f.href))
        x.files.append((f, None, h))

    def op_copy(self):
        if not self.res:
            return
        r, m = self.r, self.m
        x = r.choice(self.res)
        src = r.choice(['a.txt', 'UP.TXT', '50%.xml', u8(u'\xe9 x.txt'), 'missing.txt', 'imsmanifest.xml', '.hid'])
        full = os.path.join(self.out, 'src', src)
        url = uri.URIFactory.URI('file://' + quote(r, full))
        base = u''
        el = None
        if x.entry is not None and x.entry[0] == 'path' and self.entries(x) != [None]:
            base = posixpath.dirname(x.entry[1])
        self.log.append(('copy', x.id, src, base))
        n = len(x.el.File)
        if src == '.hid':
            with self.guard():
                m.raises((cp.CPFilePathError,), 'hidden file copied', self.cp.FileCopy, x.el, url)
            m.check(len(x.el.File) == n, 'element left by a refusal', src)
            return
        want = posixpath.join(base, src.decode('utf-8'))
        if self.conflict(posixpath.join(base, u'x')):
            return
        with self.guard():
            f = self.cp.FileCopy(x.el, url)
            p = f.PackagePath(self.cp)
        m.check(p is not None, 'copied outside', src, str(f.href))
        p = unicode(p)
        m.check(not self.taken(p), 'copied over', src, p, self.log)
        if not self.taken(want) and want not in self.dirs:
            m.check(p == want, 'copied elsewhere', src, p, want, self.log)
        m.check(posixpath.dirname(p) == base and posixpath.splitext(p)[1] == posixpath.splitext(want)[1], 'copied elsewhere', src, p, want, self.log)
        x.files.append((f, p, str(f.href)))
        if src != 'missing.txt':
            self.add(p, get(full))
        m.count('copies')

    def op_entry(self):
        xs = [x for x in self.res if x.files]
        if not xs:
            return
        x = self.r.choice(xs)
        f, p, h = self.r.choice(x.files)
        with self.guard():
            x.el.SetEntryPoint(f)
        x.entry = ('path', p) if p is not None else ('href', h)
        self.log.append(('entry', x.id, p, h))

    def op_dep(self):
        if not self.res:
            return
        x = self.r.choice(self.res)
        if x.deps and self.r.random() < .4:
            i = self.r.randrange(len(x.deps))
            d = x.el.Dependency[i]
            with self.guard():
                x.el.DeleteDependency(d)
            self.m.check(d.parent is None, 'deleted dependency keeps its parent')
            del x.deps[i]
        else:
            t = self.r.choice(self.res).id
            with self.guard():
                x.el.ChildElement(x.el.DependencyClass).identifierref = t
            x.deps.append(t)
        self.log.append(('dep', x.id, list(x.deps)))

    def op_unrefer(self):
        xs = [x for x in self.res if x.files]
        if not xs:
            return
        x = self.r.choice(xs)
        i = self.r.randrange(len(x.files))
        with self.guard():
            x.el.DeleteFile(x.files[i][0])
            self.cp.RebuildFileTable()
        self.log.append(('unrefer', x.id, i))
        del x.files[i]

    def op_delete(self):
        r = self.r
        fs = [p for p in self.files if not ignored(p)]
        if not fs:
            return
        p = r.choice(sorted(fs))
        h = href_of(r, u'', p)
        c = r.random()
        if c < .3:
            h = 'file://' + quote(r, os.path.join(self.pdir(), u8(p)))
        elif c < .5:
            h = r.choice(['./', 'no/../', 'dir/%2e%2e/']) + h
            if h.startswith('dir/') and u'dir' not in self.dirs:
                return
        self.log.append(('delete', p, h))
        with self.guard():
            self.cp.DeleteFile(h)
        del self.files[p]
        for x in self.res:
            x.files = [t for t in x.files if t[1] != p]
        self.m.count('deletes')

    def op_refused(self):
        """things that must be refused without any effect"""
        r, m, c = self.r, self.m, self.cp
        top = self.pdir()
        k = r.choice(['file', 'delete', 'unique'])
        ups = '../' * r.randint(1, 3)
        esc = [ups + 'precious.txt', '../pkg-other/a.txt', '../' + quote(r, os.path.basename(top)) + '-other/a.txt', 'file://' + quote(r, os.path.join(self.out, 'precious.txt')), 'dir/../../' + 'src/a.txt',
               'file://' + quote(r, os.path.join(self.out, 'imsmanifest.xml')), '%2e%2e/precious.txt', 'dir/%2e%2e/%2e%2e/precious.txt', quote(r, os.path.relpath(os.path.join(self.out, 'precious.txt'), top)),
               '..%2Fprecious.txt', quote(r, os.path.join(self.out, 'src/a.txt'))]
        mani = ['imsmanifest.xml', './imsmanifest.xml', 'file://' + quote(r, os.path.join(top, 'imsmanifest.xml')), 'x/../imsmanifest.xml', '%69msmanifest.xml', '']
        with self.guard():
            if k == 'file' and self.res:
                x = r.choice(self.res)
                if x.base:
                    return
                h = r.choice(esc + mani + ['.hidden', 'dir/.x', './', '.'])
                self.log.append(('refused file', h))
                m.raises((cp.CPFilePathError,), 'File accepted', c.File, x.el, uri.URIFactory.URI(h))
            elif k == 'delete':
                dirs = [quote(r, d) for d in sorted(self.dirs)]
                kind = r.choice(['esc', 'manifest', 'hidden', 'missing', 'dir', 'http'])
                h = {'esc': r.choice(esc), 'manifest': r.choice(mani), 'hidden': '.hidden', 'missing': 'nope.txt', 'dir': r.choice(dirs + ['.']), 'http': r.choice(['http://www.example.com/a', 'urn:x'])}[kind]
                ex = {'missing': cp.CPFileTypeError, 'dir': cp.CPFileTypeError, 'http': cp.CPProtocolError}.get(kind, (cp.CPFilePathError, cp.CPFileTypeError))
                self.log.append(('refused delete', h))
                m.raises(ex if isinstance(ex, tuple) else (ex,), 'DeleteFile accepted', c.DeleteFile, h)
            elif k == 'unique':
                h = r.choice(['../x', 'a/../../x', os.path.join(self.out, 'x'), '/x', os.path.dirname(top), top + '-other/a', '', '.', top, 'a/..'])
                self.log.append(('refused unique', h))
                m.raises((cp.CPFilePathError,), 'GetUniqueFile accepted', c.GetUniqueFile, h)
        m.count('refusals')

    def op_collide(self):
        """the random part of a unique name is itself taken"""
        r, m = self.r, self.m
        fs = [p for p in self.files if not ignored(p)]
        if not fs:
            return
        s = r.choice(sorted(fs))
        n = r.choice([0xA, 0xFF, 1])
        root, ext = posixpath.splitext(s)
        k = r.randint(1, 3)
        for i in range(k):
            t = u'%s_%X%s' % (root, n + i, ext)
            if t not in self.files and not self.conflict(t):
                put(os.path.join(self.pdir(), u8(t)), 'collide')
                self.add(t, 'collide')
        with self.guard():
            self.cp.RebuildFileTable()
        save = _random.randint
        _random.randint = lambda a, b: n
        try:
            self.unique(s, vfs.OSFilePath(self.pdir(), s), 'collide')
        finally:
            _random.randint = save
        self.log.append(('collide', s, n))
        m.count('collisions')

    def op_reload(self):
        """write the manifest, read it with the library and with Java"""
        m = self.m
        self.log.append(('reload',))
        with self.guard():
            self.cp.manifest.Update()
        self.manifest_dom(get(self.manifest_path()))
        tmp = self.cp.tempDir
        how = self.r.choice(['dir', 'manifest', 'str'])
        path = {'dir': vfs.OSFilePath(self.pdir()), 'str': self.pdir(), 'manifest': vfs.OSFilePath(self.pdir(), 'imsmanifest.xml')}[how]
        with self.guard():
            new = cp.ContentPackage(path)
        new.tempDir = tmp
        name = self.cp.GetPackageName()
        self.m.check(new.GetPackageName() == os.path.basename(self.pdir()).decode('utf-8') and isinstance(new.GetPackageName(), unicode), 'package name', new.GetPackageName())
        self.adopt(new)
        m.count('reloads')

    def adopt(self, new):
        """take a package that should have the same content for the current one"""
        m = self.m
        els = new.manifest.root.Resources.Resource
        m.require(len(els) == len(self.res), 'reloaded resources', [e.id for e in els], self.log)
        for e, x in zip(els, self.res):
            m.require(len(e.File) == len(x.files), 'reloaded files', len(e.File), self.log)
            m.check(e.type == x.type, 'reloaded type', e.type, x.type)
            x.el = e
            x.files = [(f, p, h) for f, (o, p, h) in zip(e.File, x.files)]
            for f, p, h in x.files:
                if p is None:
                    m.check(str(f.href) == h, 'reloaded href', h, str(f.href))
        m.check(new.manifest.root.id == self.cp.manifest.root.id, 'manifest id')
        md = new.manifest.root.Metadata
        self.cp = new

    def manifest_dom(self, data):
        m = self.m
        d = odh.dom(data)
        m.check((d.ns, d.name) == (IMSCP, 'manifest'), 'manifest element', d.name)
        rs = d.all(IMSCP, 'resources')
        m.require(len(rs) == 1, 'resources element', len(rs))
        got = []
        for e in rs[0].all(IMSCP, 'resource'):
            got.append((e.get('identifier'), e.get('type'), [c.get('href') for c in e.all(IMSCP, 'file')], [c.get('identifierref') for c in e.all(IMSCP, 'dependency')]))
        want = [(x.id, x.type, [h for f, p, h in x.files], x.deps) for x in self.res]
        m.check(got == want, 'written manifest', got, want, self.log)

    def op_zip(self):
        """export, check with Java, import"""
        m = self.m
        self.log.append(('zip',))
        zd = self.top + '/zips'
        if not os.path.isdir(zd):
            os.mkdir(zd)
        z = os.path.join(zd, self.r.choice(['P.zip', u8(u'\xe9t\xe9.zip'), 'q.PIF', 'x.y.ZIP']))
        with self.guard():
            self.cp.manifest.Update()
            self.cp.ExportToPIF(z)
        got = jread(z)
        want = dict((k, v) for k, v in snapshot(self.pdir()).items() if not ignored(k))
        got2 = dict((k.rstrip('/'), None if k.endswith('/') else v) for k, v in got)
        m.check(len(got) == len(got2), 'zip duplicates', got)
        m.check(got2 == want, 'zip content', sorted(set(got2.items()) ^ set(want.items()))[:4], self.log)
        before = set(os.listdir(self.tmp))
        with self.guard():
            new = cp.ContentPackage(vfs.OSFilePath(z) if self.r.random() < .5 else z)
        self.m.check(new.tempDir and os.path.dirname(u8(str(new.dPath))) == self.tmp and os.path.basename(u8(str(new.dPath))) not in before, 'unpacked in', str(new.dPath))
        base = os.path.basename(z).decode('utf-8')
        if base.lower().endswith(u'.zip'):
            base = base[:-4]
        m.check(new.GetPackageName() == base and isinstance(new.GetPackageName(), unicode), 'zip package name', new.GetPackageName(), base)
        old, oldfiles = self.cp, dict(self.files)
        kept = dict((p, c) for p, c in self.files.items() if not ignored(p))
        self.adopt(new)
        self.files = kept
        self.check('imported')
        if old.tempDir:
            d = u8(str(old.dPath))
            with Inside(d):
                old.Close()
            m.check(not os.path.exists(d), 'temporary package left', d)
            m.check(not ESCAPES, 'escape', ESCAPES)
        m.count('zips')
        m.check(dict((k, v) for k, v in snapshot(self.pdir()).items() if v is not None and k != 'imsmanifest.xml') == dict((u8(k), v) for k, v in kept.items()), 'imported after close', self.log)


def jread(path):
    """[(name bytes, content)] as Java reads the zip"""
    z = JZip(JFile(path.decode('utf-8')))
    out = []
    try:
        en = z.entries()
        while en.hasMoreElements():
            e = en.nextElement()
            b = ByteArrayOutputStream()
            s = z.getInputStream(e)
            buf = jarray.zeros(4096, 'b')
            while True:
                n = s.read(buf)
                if n <= 0:
                    break
                b.write(buf, 0, n)
            out.append((e.getName().encode('utf-8'), b.toByteArray().tostring()))
    finally:
        z.close()
    return out


OPS = ['resource', 'resource', 'new', 'new', 'new', 'refer', 'refer', 'external', 'copy', 'copy', 'entry', 'dep', 'unrefer', 'delete', 'delete', 'refused', 'refused', 'refused', 'collide', 'reload', 'zip']


def fam_history(m, r):
    w = World(m, r)
    try:
        kind = r.choice(['temp', 'new', 'existing'])
        if kind == 'existing':
            for i in range(r.randint(0, 5)):
                p = relpath(r)
                if r.random() < .15:
                    p = r.choice([u'.hidden', u'.svn/entries', u'dir/.x'])
                if p != u'imsmanifest.xml' and not w.conflict(p):
                    put(os.path.join(w.dir, u8(p)), 'old ' + u8(p))
                    w.add(p, 'old ' + u8(p))
            if not os.path.isdir(w.dir):
                os.mkdir(w.dir)
        with w.guard():
            w.cp = cp.ContentPackage() if kind == 'temp' else cp.ContentPackage(r.choice([w.dir, vfs.OSFilePath(w.dir), w.dir + '/']) if kind == 'existing' else w.dir)
        m.check(w.cp.tempDir == (kind == 'temp'), 'temporary', kind)
        m.check(w.cp.GetPackageName() == (u'imscp' if kind == 'temp' else u'pkg') or kind == 'existing', 'name', w.cp.GetPackageName())
        m.check(os.path.isfile(w.manifest_path()), 'manifest not created')
        w.check('start')
        for i in range(r.randint(6, 22)):
            op = r.choice(OPS)
            getattr(w, 'op_' + op)()
            w.check(op)
            m.count('op_' + op)
        m.key(tuple(w.log))
        tmp, d = w.cp.tempDir, w.pdir()
        was = snapshot(d)
        with Inside(d):
            w.cp.Close()
        w.cp = None
        w.outside_ok('close')
        if tmp:
            m.check(not os.path.exists(d), 'temporary package left', d)
        else:
            m.check(snapshot(d) == was, 'package removed by close', d)
        m.check(not os.listdir(w.tmp), 'temporary files left', os.listdir(w.tmp))
    finally:
        w.close()


# --- paths -------------------------------------------------------------------

SEGS = [u'a', u'b', u'..', u'.', u'pkg', u'a.b', u'..x', u'.h', u'', u'\xe9', u'pkgs']


def fam_paths(m, r):
    if not hasattr(fam_paths, 'pkg'):
        fam_paths.top = tempfile.mkdtemp('p01', dir=os.environ['VERIF_WORK'])
        fam_paths.pkg = cp.ContentPackage(os.path.join(fam_paths.top, 'pkg'))
    pkg = fam_paths.pkg
    top = fam_paths.top.decode('utf-8') if isinstance(fam_paths.top, str) else fam_paths.top

    def path(start):
        return start + u'/' + u'/'.join(r.choice(SEGS) for i in range(r.randint(0, 5)))
    parent = r.choice([u'/x/pkg', u'/x', u'/', u'/x/./pkg', u'/x/y/../pkg/', u'/x/pkgs'])
    child = path(r.choice([u'/x/pkg', u'/x', u'', u'/x/pkgs', u'/x/pkg/']))
    child = u'/' + child.lstrip(u'/')
    m.key((parent, child))
    got = cp.PathInPath(vfs.OSFilePath(child), vfs.OSFilePath(parent))
    nc, np = posixpath.normpath(u8(child)), posixpath.normpath(u8(parent))
    nc = '/' + nc.lstrip('/')
    np = '/' + np.lstrip('/')
    if nc == np:
        want = ''
    elif nc.startswith(np.rstrip('/') + '/'):
        want = nc[len(np.rstrip('/')) + 1:]
    else:
        want = None
    m.check((None if got is None else u8(unicode(got))) == want, 'PathInPath', child, parent, got, want)
    m.count('inside' if want is not None else 'not inside')
    # package paths
    root = unicode(str(pkg.dPath), 'utf-8')
    p = r.choice([root, root, os.path.dirname(root), root + u's', u''])
    segs = [r.choice([s for s in SEGS if s not in (u'', u'.', u'..')]) for i in range(r.randint(0, 4))]
    p = u'/'.join([p] + segs) or u'/'
    got = pkg.PackagePath(vfs.OSFilePath(p))
    want = None
    if p == root:
        want = u''
    elif p.startswith(root + u'/'):
        want = p[len(root) + 1:]
    m.check((None if got is None else unicode(got)) == want, 'PackagePath', p, root, got, want)
    # ignored paths
    segs = [r.choice(SEGS + [u'.svn', u'.DS_Store', u'a.', u'...']) for i in range(r.randint(1, 5))]
    p = r.choice([u'', u'/', u'']) + u'/'.join(segs)
    n = posixpath.normpath(u8(p))
    if n == '.':
        return
    want = any(s.startswith('.') and s != '..' for s in n.split('/'))
    got = pkg.IgnoreFilePath(vfs.OSFilePath(p))
    m.check(got is want or bool(got) == want, 'IgnoreFilePath', p, got)
    m.count('ignored' if want else 'not ignored')
    s = r.choice(segs)
    if s:
        pat = r.choice([r'\..*', r'.*\.b', r'a', r'a|pkg', r'', r'[ab]'])
        pkg.SetIgnoreFiles(pat)
        import re
        m.check(bool(pkg.IgnoreFile(s)) == bool(re.match('(?:%s)\\Z' % pat, s)), 'IgnoreFile', pat, s)
        pkg.SetIgnoreFiles(cp.IGNOREFILES_RE)


# --- hostile zips --------------------------------------------------------------

MANIFEST = '<manifest xmlns="%s" identifier="M"><organizations/><resources>%s</resources></manifest>'
ENTRIES = [u'a.txt', u'dir/', u'dir/b.txt', u'dir/c/d.txt', u'\xe9.txt', u'../x.txt', u'dir/../../x.txt', u'/abs.txt', u'//n', u'dir//e.txt', u'./f.txt', u'dir/./g.txt', u'dir/../h.txt', u'..', u'../', u'dir/..', u'.',
           u'a.txt/sub', u'dir', u'../imscpv1p2-x.d/y', u'.hid', u'dir/.svn/x', u'C:/w.txt', u'back\\..\\slash', u'....//x', u'..a', u'a..', u'../../../../../../../../../tmp/p01-escape', u'dir/../../pkg/z', u'empty/', u'x/../../x', u' ', u'\u82f1/\u56fd']


def fam_zip(m, r):
    w = World(m, r)
    try:
        mf = MANIFEST % (IMSCP, '')
        ents = [(u'imsmanifest.xml', mf)]
        for i in range(r.randint(1, 6)):
            n = r.choice(ENTRIES)
            ents.append((n, '' if n.endswith(u'/') and r.random() < .9 else 'content %d' % i))
        if r.random() < .15:
            ents.append(r.choice(ents))
        if r.random() < .5:
            r.shuffle(ents)
        m.key(tuple(ents))
        os.mkdir(w.top + '/zips')
        z = w.top + '/zips/h.zip'
        zf = zipfile.ZipFile(z, 'w', r.choice([zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED]))
        for n, data in ents:
            zf.writestr(zipfile.ZipInfo(u8(n)), data)
        zf.close()
        # what should be found
        tree = {}
        fault = None
        for n, data in ents:
            stack = []
            bad = None
            segs = n.split(u'/')
            for i, s in enumerate(segs):
                if stack and tuple(stack) in tree and tree[tuple(stack)] is not None:
                    bad = bad or 'conflict'
                if stack:
                    tree.setdefault(tuple(stack), None)
                if s == u'..':
                    if not stack:
                        bad = bad or 'escape'
                        break
                    stack.pop()
                elif s not in (u'', u'.'):
                    stack.append(s)
            if bad:
                fault = fault or bad
                break
            t = tuple(stack)
            if not t or t in tree and tree[t] is None:
                if data:
                    fault = 'dirsize'
                    break
            elif t in tree:
                fault = 'duplicate' if not n.endswith(u'/') else 'conflict'
                break
            elif n.endswith(u'/') and stack:
                tree[t] = None
                if data:
                    fault = 'dirsize'
                    break
            else:
                tree[t] = data
        want = {'escape': (cp.CPZIPFilenameError,), 'dirsize': (cp.CPZIPDirectorySizeError,), 'duplicate': (cp.CPZIPDuplicateFileError,), 'conflict': (Exception,)}
        if fault is None and tree.get((u'imsmanifest.xml',)) != mf:
            return
        if fault:
            with Inside(w.tmp):
                m.raises(want[fault], 'zip accepted:' + fault, cp.ContentPackage, z)
            m.check(not os.listdir(w.tmp), 'unpacked files left', os.listdir(w.tmp), ents)
            m.count('refused_' + fault)
        else:
            with Inside(w.tmp):
                pkg = cp.ContentPackage(z)
            got = snapshot(str(pkg.dPath))
            exp = dict((u8(u'/'.join(t)), d) for t, d in tree.items())
            m.check(dict((k, v) for k, v in got.items() if v is not None) == dict((k, v) for k, v in exp.items() if v is not None), 'unpacked', sorted(set(got.items()) ^ set(exp.items()))[:4], ents)
            m.check(set(k for k in exp) <= set(got), 'unpacked directories', sorted(got), sorted(exp))
            table = sorted(u8(unicode(k)) for k in pkg.fileTable)
            m.check(table == sorted(k for k, v in exp.items() if v is not None and k != 'imsmanifest.xml' and not ignored(k)), 'table', table, ents)
            with Inside(w.tmp):
                pkg.Close()
            m.check(not os.listdir(w.tmp), 'unpacked files left', os.listdir(w.tmp), ents)
            m.count('unpacked')
        w.outside_ok('zip')
        m.check(sorted(os.listdir(w.top)) == ['outside', 'tmp', 'zips'], 'escaped', os.listdir(w.top), ents)
    finally:
        w.close()


# --- hostile manifests ---------------------------------------------------------

def fam_manifest(m, r):
    w = World(m, r)
    try:
        put(w.dir + '/a.txt', 'a')
        put(w.dir + '/dir/b.txt', 'b')
        pool = [('a.txt', u'a.txt'), ('./dir/../a.txt', u'a.txt'), ('dir/b.txt', u'dir/b.txt'), ('dir/b.txt?q=1', u'dir/b.txt'), ('a.txt#frag', u'a.txt'), ('gone.txt', u'gone.txt'), ('../precious.txt', None), ('../../../etc/passwd', None),
                ('%2e%2e/precious.txt', None), ('dir/%2e%2e/a.txt', u'a.txt'), ('/etc/passwd', None), ('file:///etc/passwd', None), ('http://www.example.com/a.txt', None), ('//www.example.com/a.txt', None), ('file://server/share/a.txt', None), ('urn:a', None), ('mailto:x@y', None),
                ('%C3%A9.txt', u'\xe9.txt'), (u'\xe9.txt', u'\xe9.txt'), ('a%20b.txt', u'a b.txt'), ('dir%2Fb.txt', u'dir/b.txt'), (None, None), ('file://' + w.dir + '/a.txt', u'a.txt'), ('data:,x', None), ('../pkg/a.txt', u'a.txt'), ('../pkg-other/a.txt', None), ('x;y/z', u'x;y/z')]
        rs = []
        for i in range(r.randint(1, 3)):
            rs.append((u'R%d' % i, r.choice([None, None, u'dir/', u'http://www.example.com/', u'../']), [r.choice(pool) for j in range(r.randint(0, 4))]))
        s = u''
        want = {u'a.txt': 0, u'dir/b.txt': 0}
        el = []
        for n, base, fs in rs:
            s += u'<resource identifier="%s" type="webcontent"%s>' % (n, u' xml:base="%s"' % base if base else u'')
            for h, p in fs:
                s += u'<file%s/>' % (u'' if h is None else u' href="%s"' % h)
                if base and h is not None and not (h.startswith('file:') or h.startswith('http:') or h.startswith('urn:') or h.startswith('mailto:') or h.startswith('data:') or h.startswith('/')):
                    if base.startswith(u'http'):
                        p = None
                    else:
                        q = posixpath.normpath(posixpath.join(w.dir, u8(base), urllib.unquote(u8(h).split('#')[0].split('?')[0])))
                        p = q[len(w.dir) + 1:].decode('utf-8') if q.startswith(w.dir + '/') else None
                elif base and base.startswith(u'http') and h is not None and h.startswith('/'):
                    p = None
                el.append((h, p, base))
                if p is not None:
                    want[p] = want.get(p, 0) + 1
            s += u'</resource>'
        put(w.manifest_path() if w.cp else w.dir + '/imsmanifest.xml', (MANIFEST % (IMSCP, s)).encode('utf-8'))
        m.key(s)
        with Inside(w.dir):
            pkg = cp.ContentPackage(w.dir)
        m.check(not ESCAPES, 'escape', ESCAPES)
        got = dict((unicode(k), len(v)) for k, v in pkg.fileTable.items())
        m.check(got == want, 'manifest table', got, want, s)
        fl = [f for x in pkg.manifest.root.Resources.Resource for f in x.File]
        m.require(len(fl) == len(el), 'manifest files', len(fl), s)
        for f, (h, p, base) in zip(fl, el):
            g = f.PackagePath(pkg)
            m.check((None if g is None else unicode(g)) == p, 'manifest path', h, base, g, p)
            m.count('local' if p is not None else 'foreign')
        # deleting everything the manifest names leaves the rest of the world alone
        w.cp = pkg
        for f, (h, p, base) in zip(fl, el):
            if h is None:
                continue
            try:
                url = f.ResolveURI(f.href)
                with Inside(w.dir):
                    pkg.DeleteFile(str(url))
            except (cp.CPFileTypeError, cp.CPFilePathError, cp.CPProtocolError, ValueError):
                pass
            w.outside_ok('delete ' + u8(h))
        m.check(os.path.isfile(w.dir + '/imsmanifest.xml'), 'manifest deleted', s)
        m.check(os.path.isfile(w.dir + '/a.txt') != (want[u'a.txt'] > 0 ) and os.path.isfile(w.dir + '/dir/b.txt') != (want[u'dir/b.txt'] > 0), 'deleted', s, os.listdir(w.dir))
    finally:
        w.close()


def fam_links(m, r):
    """links: files reached twice are refused, never followed out when unpacked"""
    w = World(m, r)
    try:
        put(w.dir + '/a.txt', 'a')
        k = r.choice(['file', 'dir', 'loop', 'one'])
        if k == 'file':
            os.symlink(w.dir + '/a.txt', w.dir + '/b.txt')
        elif k == 'dir':
            put(w.dir + '/d/x', 'x')
            os.symlink(w.dir + '/d', w.dir + '/e%d' % r.randint(0, 9))
        elif k == 'loop':
            put(w.dir + '/d/x', 'x')
            os.symlink(w.dir + r.choice(['', '/d']), w.dir + '/d/loop')
        else:
            os.symlink(w.out + '/precious.txt', w.dir + '/p.txt')
        m.key((k, r.random()))
        if k == 'one':
            with Inside(w.dir):
                pkg = cp.ContentPackage(w.dir)
            m.check(sorted(unicode(x) for x in pkg.fileTable) == [u'a.txt', u'p.txt'], 'linked table', list(pkg.fileTable))
            os.mkdir(w.top + '/zips')
            with Inside(w.top + '/zips'):
                pkg.ExportToPIF(w.top + '/zips/l.zip')
            m.check(dict(jread(w.top + '/zips/l.zip')).get('p.txt') == 'outside:precious.txt', 'linked zip')
        else:
            with Inside(w.dir):
                m.raises((cp.CPException, cp.CPZIPBeenThereError), 'seen twice', cp.ContentPackage, w.dir)
        w.outside_ok('links')
        m.count('links')
    finally:
        w.close()


FAMILIES = [
    Family('history', fam_history, 600, 12000),
    Family('paths', fam_paths, 4000, 60000),
    Family('zip', fam_zip, 1200, 20000),
    Family('manifest', fam_manifest, 600, 10000),
    Family('links', fam_links, 60, 600),
]
