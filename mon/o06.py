"""O06 the in-memory store is safe under concurrent use"""

import hashlib
import random
import sys
import threading
import time
import traceback
from java.util.concurrent.atomic import AtomicLong
from java.util.concurrent import CyclicBarrier
from java.util.concurrent.locks import LockSupport
from lib import Family
import odm
import odl
import pyslet.odata2.csdl as edm
import pyslet.odata2.memds as memds
import pyslet.odata2.core as core
import pyslet.rfc2616 as http

PROPERTY = 'O06'
clock = AtomicLong()

PROPS = u''.join(u'<Property Name="%s" Type="Edm.%s" Nullable="true"/>' % p for p in
                 [('A', 'Int32'), ('N', 'String'), ('P0', 'Int32'), ('P1', 'Int32'), ('P2', 'Int32'), ('P3', 'Int32')])
ITEMS = (u'<EntityContainer Name="C" m:IsDefaultEntityContainer="true"><EntitySet Name="Items" EntityType="V.Item"/><EntitySet Name="Docs" EntityType="V.Doc"/></EntityContainer>'
         u'<EntityType Name="Item"><Key><PropertyRef Name="ID"/></Key><Property Name="ID" Type="Edm.Int32" Nullable="false"/>%s<Property Name="C" Type="V.CT" Nullable="false"/></EntityType>'
         u'<EntityType Name="Doc" m:HasStream="true"><Key><PropertyRef Name="ID"/></Key><Property Name="ID" Type="Edm.Int32" Nullable="false"/>'
         u'<Property Name="Tag" Type="Edm.Binary" ConcurrencyMode="Fixed" Nullable="true"/></EntityType>'
         u'<ComplexType Name="CT"><Property Name="X" Type="Edm.Int32"/><Property Name="Y" Type="Edm.String"/></ComplexType>' % PROPS)


class Chaos(object):
    """Delays injected at the lines of the code under test, in every thread"""

    def __init__(self, seed, rate):
        self.seed, self.rate = seed, rate
        self.switches = AtomicLong()

    def tracer(self, n):
        rng = random.Random('%s/%d' % (self.seed, n))
        rate = self.rate

        def local(frame, event, arg):
            if event == 'line' and rng.random() < rate:
                self.switches.incrementAndGet()
                LockSupport.parkNanos(rng.choice([1000, 20000, 200000]))
            return local

        def trace(frame, event, arg):
            f = frame.f_code.co_filename
            if f.endswith('memds.py') or f.endswith('memds$py.class'):
                return local
            return None
        return trace


class Threads(object):
    """Runs functions together and collects what they raised"""

    def __init__(self, m, r, rate):
        self.m, self.r = m, r
        self.chaos = Chaos(r.getrandbits(60), rate)
        self.errors = []
        self.todo = []

    def add(self, f, *args):
        self.todo.append((f, args))

    def run(self):
        barrier = CyclicBarrier(len(self.todo))
        seeds = [self.r.getrandbits(60) for x in self.todo]

        def body(n, f, args):
            try:
                barrier.await()
                sys.settrace(self.chaos.tracer(n))
                try:
                    f(random.Random(seeds[n]), *args)
                finally:
                    sys.settrace(None)
            except Exception:
                self.errors.append(traceback.format_exc())
            except:
                self.errors.append('java: %s' % (sys.exc_info()[1],))
        ts = [threading.Thread(target=body, args=(n, f, args)) for n, (f, args) in enumerate(self.todo)]
        for t in ts:
            t.setDaemon(True)
            t.start()
        for t in ts:
            t.join(40)
        stuck = [t for t in ts if t.isAlive()]
        self.m.check(not stuck, 'deadlock', '%d threads never finished' % len(stuck))
        for e in self.errors:
            self.m.violate('thread-error', e[-900:])
        self.m.count('switches', int(self.chaos.switches.get()))
        return not stuck and not self.errors


def rate(r):
    return r.choice([0.0, 0.02, 0.1, 0.3])


def items():
    doc = odm.load(odm.edmxdoc(ITEMS))
    c = odm.memcontainer(doc, 'V.C')
    return c, lambda name='Items': doc.root.DataServices['V.C.' + name].OpenCollection()


def setall(e, v):
    e['A'].SetFromValue(v)
    e['N'].SetFromValue(u'%d' % v)
    e['C']['X'].SetFromValue(v)
    e['C']['Y'].SetFromValue(u'y%d' % v)


def readall(m, e):
    a = e['A'].value
    m.check(e['N'].value == u'%d' % a and e['C']['X'].value == a and e['C']['Y'].value == u'y%d' % a, 'torn-read',
            a, e['N'].value, e['C']['X'].value, e['C']['Y'].value)
    return a


# ------------------------------------------------------------ linearizability of one entity
def apply(state, op):
    """The state after an operation with the result observed, or None if it could not have been"""
    kind, arg, res = op
    if kind == 'insert':
        return (arg,) if res == 'ok' and state == () else (state if res == 'dup' and state != () else None)
    if kind == 'read':
        return state if (res == 'none' and state == ()) or (res != 'none' and state == (res,)) else None
    if kind == 'update':
        return (arg,) if res == 'ok' and state != () else (state if res == 'none' and state == () else None)
    if kind == 'delete':
        return () if res == 'ok' and state != () else (state if res == 'none' and state == () else None)
    assert False, kind


def linearizable(hist, final):
    """hist: [(start, end, (kind, arg, result))]"""
    ops = sorted(hist)
    n = len(ops)
    seen = set()
    stack = [(frozenset(), ())]
    while stack:
        done, state = stack.pop()
        if len(done) == n:
            if state == final:
                return True
            continue
        if (done, state) in seen:
            continue
        seen.add((done, state))
        horizon = min(ops[i][1] for i in range(n) if i not in done)
        for i in range(n):
            if i in done or ops[i][0] > horizon:
                continue
            new = apply(state, ops[i][2])
            if new is not None:
                stack.append((done | frozenset([i]), new))
    return False


def f_entities(m, r):
    """Each entity behaves as one atomic register"""
    c, op = items()
    t = Threads(m, r, rate(r))
    nkeys = r.choice([1, 1, 2, 3])
    hist = [[] for k in range(nkeys)]
    values = AtomicLong()

    def worker(rng):
        with op() as coll:
            for i in range(rng.randint(3, 7)):
                k = rng.randrange(nkeys)
                kind = rng.choice(['insert', 'insert', 'read', 'read', 'update', 'update', 'delete', 'upsert'])
                arg = int(values.incrementAndGet())
                start = clock.incrementAndGet()
                if kind == 'insert':
                    e = coll.NewEntity()
                    e['ID'].SetFromValue(k)
                    setall(e, arg)
                    try:
                        coll.InsertEntity(e)
                        res = 'ok'
                    except edm.ConstraintError:
                        res = 'dup'
                elif kind == 'read':
                    try:
                        res = readall(m, coll[k])
                    except KeyError:
                        res = 'none'
                elif kind == 'delete':
                    try:
                        del coll[k]
                        res = 'ok'
                    except KeyError:
                        res = 'none'
                else:
                    # an update of an entity we read earlier
                    try:
                        e = coll[k]
                    except KeyError:
                        continue
                    kind = 'update'
                    start = clock.incrementAndGet()
                    setall(e, arg)
                    try:
                        coll.UpdateEntity(e)
                        res = 'ok'
                    except KeyError:
                        res = 'none'
                end = clock.incrementAndGet()
                hist[k].append((start, end, (kind, arg, res)))
    for i in range(r.choice([2, 3, 4])):
        t.add(worker)
    if not t.run():
        return
    with op() as coll:
        for k in range(nkeys):
            try:
                final = (readall(m, coll[k]),)
            except KeyError:
                final = ()
            h = sorted(hist[k])
            overlap = sum(1 for a, b in zip(h, h[1:]) if b[0] < a[1])
            m.count('operations', len(h))
            m.count('overlaps', overlap)
            m.check(linearizable(h, final), 'not-linearizable', h, final)
            m.key(tuple(x[2] for x in h), nontrivial=overlap > 0)
        m.sample(sorted(hist[0]))


def f_autokeys(m, r):
    """Automatic keys are never given twice and no insert is lost"""
    c, op = items()
    t = Threads(m, r, rate(r))
    got = []
    n = r.randint(2, 6)

    def worker(rng, w):
        with op() as coll:
            for i in range(rng.randint(2, 8)):
                e = coll.NewEntity()
                setall(e, w * 100 + i)
                coll.InsertEntity(e)
                got.append((e.Key(), w * 100 + i))
                if rng.random() < 0.2:
                    len(coll)
    for w in range(n):
        t.add(worker, w)
    if not t.run():
        return
    m.key(tuple(v for k, v in sorted(got)))
    m.sample(sorted(got)[:8])
    m.check(len(set(k for k, v in got)) == len(got), 'key-reused', sorted(got))
    with op() as coll:
        m.check(sorted((e.Key(), readall(m, e)) for e in coll.itervalues()) == sorted(got), 'inserts-lost', sorted(got))
    m.count('autokeys', len(got))


def f_properties(m, r):
    """Threads that each update their own property do not undo each other"""
    c, op = items()
    with op() as coll:
        for k in range(2):
            e = coll.NewEntity()
            e['ID'].SetFromValue(k)
            setall(e, 0)
            coll.InsertEntity(e)
    t = Threads(m, r, rate(r))
    last = {}

    def worker(rng, w):
        p = 'P%d' % w
        with op() as coll:
            coll.Expand(None, {p: None})
            for i in range(rng.randint(3, 10)):
                k = rng.randrange(2)
                e = coll[k]
                m.check(e[p].value == last.get((k, p)), 'own-update-lost', k, p, e[p].value, last.get((k, p)))
                e[p].SetFromValue(w * 1000 + i)
                coll.UpdateEntity(e)
                last[(k, p)] = w * 1000 + i
                m.count('partial_updates')
    n = r.randint(2, 4)
    for w in range(n):
        t.add(worker, w)
    if not t.run():
        return
    m.key(tuple(sorted(last.items())))
    with op() as coll:
        for k in range(2):
            e = coll[k]
            readall(m, e)
            for w in range(n):
                m.check(e['P%d' % w].value == last.get((k, 'P%d' % w)), 'update-lost', k, w, e['P%d' % w].value, last)


def f_iteration(m, r):
    """Iterating while others change the set"""
    c, op = items()
    stable, removed, added = range(0, 20), range(20, 30), range(30, 40)
    with op() as coll:
        for k in stable + removed:
            e = coll.NewEntity()
            e['ID'].SetFromValue(k)
            setall(e, 0)
            coll.InsertEntity(e)
    t = Threads(m, r, rate(r))

    def reader(rng):
        with op() as coll:
            for i in range(4):
                how = rng.choice(['values', 'keys', 'page', 'filter', 'len'])
                if how == 'len':
                    n = len(coll)
                    m.check(20 <= n <= 40, 'length', n)
                    continue
                if how == 'values':
                    got = [(e.Key(), readall(m, e))[0] for e in coll.itervalues()]
                elif how == 'keys':
                    got = list(coll)
                elif how == 'page':
                    got = [e.Key() for e in coll.iterpage()]
                    m.check(got == sorted(got), 'iterate-order', got)
                else:
                    coll.Filter(core.CommonExpression.FromString(u'A ge 0'))
                    got = coll.keys()
                    coll.Filter(None)
                m.check(len(set(got)) == len(got), 'iterate-twice', got)
                m.check(set(stable) <= set(got), 'iterate-missing', sorted(set(stable) - set(got)))
                m.check(set(got) <= set(stable + removed + added), 'iterate-unknown', got)
                m.count('iterations')

    def remover(rng):
        with op() as coll:
            for k in rng.sample(removed, len(removed)):
                del coll[k]

    def adder(rng):
        with op() as coll:
            for k in rng.sample(added, len(added)):
                e = coll.NewEntity()
                e['ID'].SetFromValue(k)
                setall(e, k)
                coll.InsertEntity(e)

    def updater(rng):
        with op() as coll:
            for i in range(10):
                e = coll[rng.choice(stable)]
                setall(e, rng.randrange(1000))
                e.Update()
    for f in [reader, reader, remover, adder, updater]:
        t.add(f)
    if t.run():
        with op() as coll:
            m.check(sorted(coll.keys()) == stable + added, 'final-keys', sorted(coll.keys()))
    m.key(t.chaos.seed)


def f_streams(m, r):
    """A media stream and its hash change together"""
    c, op = items()
    with op('Docs') as coll:
        for k in range(2):
            e = coll.NewEntity()
            e['ID'].SetFromValue(k)
            coll.InsertEntity(e)
    t = Threads(m, r, rate(r))
    n = AtomicLong()

    def writer(rng, w):
        with op('Docs') as coll:
            for i in range(rng.randint(2, 6)):
                e = coll[rng.randrange(2)]
                body = '%d-%d' % (w, i)
                e.SetStreamFromGenerator(http.MediaType.FromString('text/x-' + body), [body[:1], body[1:]])
                data = ''.join(e.GetStreamGenerator())
                m.count('stream_writes')

    def reader(rng):
        with op('Docs') as coll:
            for i in range(8):
                store = c.entityStorage['Docs']
                e = coll[rng.randrange(2)]
                data = ''.join(e.GetStreamGenerator())
                m.check(data == '' or data.count('-') == 1, 'stream-mixed', data)
    for w in range(r.randint(2, 4)):
        t.add(writer, w)
    t.add(reader)
    if not t.run():
        return
    m.key(t.chaos.seed)
    with op('Docs') as coll:
        for k in range(2):
            e = coll[k]
            data = ''.join(e.GetStreamGenerator())
            if data:
                m.check(str(e.GetStreamType()) == 'text/x-' + data, 'stream-type-mixed', data, e.GetStreamType())
                m.check(e['Tag'].value == hashlib.sha256(data).digest(), 'stream-hash', data)
                m.count('stream_hashes')


def f_links(m, r):
    """Whatever the interleaving the links are symmetric, exist and respect multiplicity"""
    ma, mb = r.choice([('0..1', '0..1'), ('0..1', '*'), ('*', '0..1'), ('*', '*'), ('1', '*'), ('1', '0..1'), ('1', '1')])
    sets, assocs = ['A', 'B'], [odl.Assoc('L', ('A', ma, 'Bs'), ('B', mb, 'As'))]
    doc = odm.load(odm.edmxdoc(odl.xml(sets, assocs)))
    odm.memcontainer(doc, 'V.C')

    def op(name):
        return doc.root.DataServices['V.C.' + name].OpenCollection()
    nk = r.randint(2, 4)
    navs = {'A': 'Bs', 'B': 'As'}
    other = {'A': 'B', 'B': 'A'}
    mult = {'A': ma, 'B': mb}
    # each entity with its own partner to start with where one is needed
    with op('A') as ca:
        for k in range(nk):
            e = ca.NewEntity()
            e['ID'].SetFromValue(k)
            with op('B') as cb:
                b = cb.NewEntity()
                b['ID'].SetFromValue(k)
                if '1' in (ma, mb):
                    e['Bs'].BindEntity(b)
                    ca.InsertEntity(e)
                else:
                    ca.InsertEntity(e)
                    cb.InsertEntity(b)
    t = Threads(m, r, rate(r))
    counts = {}
    log = []

    def worker(rng):
        for i in range(rng.randint(3, 8)):
            s = rng.choice(sets)
            k, k2 = rng.randrange(nk + 1), rng.randrange(nk + 1)
            what = rng.choice(['link', 'link', 'replace', 'replace', 'unlink', 'delete', 'insert', 'navinsert', 'read', 'bind'])
            res = 'ok'
            try:
                with op(s) as coll:
                    if what == 'insert' or what == 'bind':
                        e = coll.NewEntity()
                        e['ID'].SetFromValue(k)
                        if what == 'bind':
                            e[navs[s]].BindEntity(k2)
                        elif rng.random() < 0.7:
                            with op(other[s]) as oc:
                                o = oc.NewEntity()
                                o['ID'].SetFromValue(k2)
                                e[navs[s]].BindEntity(o)
                        coll.InsertEntity(e)
                    elif what == 'delete':
                        del coll[k]
                    else:
                        e = coll[k]
                        with e[navs[s]].OpenCollection() as nc:
                            if what == 'read':
                                for x in nc.itervalues():
                                    m.check(x.exists, 'read-nonexistent', x.Key())
                                got = nc.keys()
                                m.check(len(set(got)) == len(got), 'read-twice', got)
                                m.count('reads')
                            elif what == 'unlink':
                                del nc[k2]
                            else:
                                with op(other[s]) as oc:
                                    if what == 'navinsert':
                                        o = nc.NewEntity()
                                        o['ID'].SetFromValue(k2)
                                        nc.InsertEntity(o)
                                    else:
                                        o = oc[k2]
                                        if what == 'link':
                                            nc[k2] = o
                                        else:
                                            nc.Replace(o)
            except odl.REFUSED as x:
                res = type(x).__name__
            log.append((what, s, k, k2, res))
            m.count('%s_%s' % (what, 'done' if res == 'ok' else 'refused'))
    for i in range(r.choice([2, 3, 4, 6])):
        t.add(worker)
    if not t.run():
        return
    m.key(tuple(log))
    m.sample(log[:10])
    ctx = ('%s %s' % (ma, mb), log[-20:])
    links = {}
    keys = {}
    for s in sets:
        links[s] = set()
        with op(s) as coll:
            keys[s] = set(coll.keys())
            for e in coll.itervalues():
                with e[navs[s]].OpenCollection() as nc:
                    got = nc.keys()
                    m.check(len(nc) == len(got), 'dangling-links', s, e.Key(), len(nc), got, ctx)
                    for k in got:
                        links[s].add((e.Key(), k) if s == 'A' else (k, e.Key()))
    m.check(links['A'] == links['B'], 'asymmetric', links, ctx)
    for a, b in links['A']:
        m.check(a in keys['A'] and b in keys['B'], 'dangling', a, b, ctx)
    for i, s in enumerate(sets):
        # how many of the other end each has
        need = mult[other[s]]
        for k in keys[s]:
            n = len([l for l in links['A'] if l[i] == k])
            m.check(need == '*' or n <= 1, 'too-many-links', s, k, n, ctx)
            m.check(need != '1' or n == 1, 'required-link-missing', s, k, n, ctx)
    m.count('link_states')


def f_isolation(m, r):
    """Nobody sees a change that fails, or half of one that succeeds"""
    sets, assocs = ['A', 'B'], [odl.Assoc('L', ('A', '0..1', 'Bs'), ('B', '*', 'As'))]
    doc = odm.load(odm.edmxdoc(odl.xml(sets, assocs)))
    odm.memcontainer(doc, 'V.C')

    def op(name):
        return doc.root.DataServices['V.C.' + name].OpenCollection()
    t = Threads(m, r, rate(r))
    with op('B') as cb:
        for k in range(100, 103):
            e = cb.NewEntity()
            e['ID'].SetFromValue(k)
            e['Data'].SetFromValue(u'old')
            cb.InsertEntity(e)

    def writer(rng, w):
        with op('A') as ca:
            for i in range(6):
                e = ca.NewEntity()
                k = w * 20 + i
                e['ID'].SetFromValue(k)
                bad = rng.random() < 0.5
                for j in range(2):
                    with op('B') as cb:
                        b = cb.NewEntity()
                        b['ID'].SetFromValue(1000 + k * 2 + j)
                        e['Bs'].BindEntity(b)
                if bad:
                    e['Data'].SetFromValue(u'bad')
                    e['Bs'].BindEntity(5000)
                    m.raises(KeyError, 'bad-insert-accepted', ca.InsertEntity, e)
                else:
                    ca.InsertEntity(e)
                # an update that fails
                with op('B') as cb:
                    b = cb[100 + rng.randrange(3)]
                    b['Data'].SetFromValue(u'new')
                    b['As'].BindEntity(5000)
                    m.raises(KeyError, 'bad-update-accepted', cb.UpdateEntity, b)
                m.count('isolated_writes', 2)

    def reader(rng):
        with op('A') as ca:
            with op('B') as cb:
                for i in range(15):
                    for e in ca.itervalues():
                        m.check(e['Data'].value != u'bad', 'dirty-read', e.Key())
                        with e['Bs'].OpenCollection() as nc:
                            m.check(sorted(nc.keys()) == [1000 + e.Key() * 2, 1001 + e.Key() * 2], 'half-insert', e.Key(), nc.keys())
                    for b in cb.itervalues():
                        m.check(b.Key() >= 1000 or b['Data'].value == u'old', 'dirty-update', b.Key())
                        if b.Key() >= 1000:
                            m.check((b.Key() - 1000) // 2 in ca, 'orphan', b.Key())
                    m.count('isolated_reads')
    n = r.randint(1, 3)
    for w in range(n):
        t.add(writer, w)
    t.add(reader)
    t.add(reader)
    t.run()
    m.key(t.chaos.seed)


FAMILIES = [
    Family('isolation', f_isolation, 100, 2000, {'isolated_reads': 1000, 'isolated_writes': 600}),
    Family('entities', f_entities, 500, 10000, {'operations': 3000, 'overlaps': 500}),
    Family('autokeys', f_autokeys, 150, 3000, {'autokeys': 1500}),
    Family('properties', f_properties, 150, 3000, {'partial_updates': 1500}),
    Family('iteration', f_iteration, 100, 2000, {'iterations': 400}),
    Family('streams', f_streams, 120, 2000, {'stream_writes': 600, 'stream_hashes': 100}),
    Family('links', f_links, 500, 10000, {'link_states': 450}),
]
