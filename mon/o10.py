"""O10 the SQL data store keeps the same contract as the in-memory one"""

import sqlite3
from lib import Family
import odm
import odl
import odw
from odw import Store
import pyslet.odata2.sqlds as sqlds
import pyslet.odata2.csdl as edm
import pyslet.odata2.core as core

PROPERTY = 'O10'
NAMES = ['Items', 'Names', 'Pairs', 'Stamps', 'Guids', 'Longs']
OPS = [op for op in odw.OPS if op is not odw.op_autokey]
_doc = []
NULLS = [True]


class Gen(odw.Gen):
    """Values the store has room for (SQLite: microseconds; text is Unicode)"""

    mark = u''

    def simple(self, r, t):
        v = odw.Gen.simple(self, r, t)
        if t == 'String':
            return self.mark + u''.join(c for c in v if not 0xd800 <= ord(c) < 0xe000)
        if t in odw.TIMES:
            i = {'DateTime': 6, 'DateTimeOffset': 6, 'Time': 3}[t]
            return v[:i] + (v[i] // 10 * 10,) + v[i + 1:]
        return v

    def row(self, r, name, small):
        row = odw.Gen.row(self, r, name, small)
        if not NULLS[0]:
            for n in ('A', 'N'):
                if row[n] is None:
                    row[n] = 0 if n == 'A' else u''
            if 'C' in row and row['C']['X'] is None:
                row['C']['X'] = 1
        return row


def condition(r, name, depth=2):
    """As the general one, within what SQL's three-valued logic leaves alike"""
    if depth == 0 or r.random() < 0.4:
        while True:
            text, f = odw.atoms(r, name)
            if NULLS[0] and u' ne ' in text and not text.endswith(u'null'):
                continue
            return text, f
    k = r.randrange(2)
    a, fa = condition(r, name, depth - 1)
    b, fb = condition(r, name, depth - 1)
    if k == 0:
        return u'(%s) and (%s)' % (a, b), lambda kv, row: fa(kv, row) and fb(kv, row)
    return u'(%s) or (%s)' % (a, b), lambda kv, row: fa(kv, row) or fb(kv, row)


odw.condition = condition


class Enforcing(sqlds.SQLiteEntityContainer):
    """SQLite only enforces foreign keys for those who ask"""

    def OpenConnection(self):
        c = super(Enforcing, self).OpenConnection()
        c.execute('PRAGMA foreign_keys=ON')
        return c


def container(doc, cls=sqlds.SQLiteEntityContainer):
    c = cls(filePath=':memory:', containerDef=doc.root.DataServices['V.C'])
    c.CreateAllTables()
    return c


def document():
    if not _doc:
        _doc.append(odm.load(odm.edmxdoc(odw.schema(NAMES))))
    return _doc[0]


class Watch(object):
    """Every statement the code sends: values stay out of the text, and a chosen statement can fail"""

    def __init__(self, m):
        self.m = m
        self.mark = None
        self.fail = None        # statements left until one fails
        self.failed = 0
        self.seen = 0
        self.seenby = []
        sqlite3.trace[:] = [self.see]

    def see(self, c, sql, params):
        if sql == 'ROLLBACK':
            return
        self.seen += 1
        if c not in self.seenby:
            self.seenby.append(c)
        if self.mark and self.mark in sql:
            self.m.violate('value-in-sql', sql)
        if self.fail is not None:
            self.fail -= 1
            if self.fail == 0:
                self.failed += 1
                self.fail = None
                raise sqlite3.OperationalError('disk I/O error')

    def stop(self):
        sqlite3.trace[:] = []
        self.m.count('statements', self.seen)


def idle(m, c, ctx):
    """Nothing is left locked or uncommitted"""
    m.check(not getattr(c, 'cPoolLocked', None), 'connection-leak', ctx)
    for db in sqlite3.trace[0].im_self.seenby:
        m.check(not db.in_transaction, 'transaction-left-open', ctx)
    m.count('idle')


def world(m, r, mark=None):
    w = Watch(m)
    c = container(document())
    g = Gen()
    if mark:
        g.mark = w.mark = mark
    sets = document().root.DataServices['V.C']
    return w, c, g, lambda name: document().root.DataServices['V.C.' + name].OpenCollection()


MARK = u"Zq'\"7);--%_x"


def f_histories(m, r):
    NULLS[0] = True
    names = r.sample(NAMES, r.randint(1, 3))
    w, c, g, opener = world(m, r, MARK if r.random() < 0.3 else None)
    try:
        s = Store(m, opener, g, names, small=r.random() < 0.6 and not w.mark)
        s.partial = True
        for i in range(r.randint(5, 25)):
            name = r.choice(names)
            r.choice(OPS)(s, r, name)
            idle(m, c, s.ctx())
            if r.random() < 0.3 or i == 0:
                for n in names:
                    s.checkall(n)
        for n in names:
            s.checkall(n)
        if w.mark:
            m.count('marked')
    finally:
        w.stop()
        c.close()
    m.key(tuple(s.log))
    m.sample(s.ctx())


def fill(s, r, name, n):
    with s.open(name) as coll:
        for i in range(n):
            ck, mvs = s.pick(r, name, False)
            if ck is None or ck in s.model[name]:
                continue
            e, row = s.new(r, coll, name, mvs)
            coll.InsertEntity(e)
            s.model[name][ck] = (mvs, row)


def f_queries(m, r):
    NULLS[0] = r.random() < 0.5
    name = r.choice(['Items', 'Items', 'Pairs', 'Pairs', 'Names', 'Longs', 'Stamps', 'Guids'])
    w, c, g, opener = world(m, r)
    try:
        s = Store(m, opener, g, [name])
        fill(s, r, name, r.choice([0, 1, 2, 5, 10, 10, 20]))
        s.log.append('%s with %d' % (name, len(s.model[name])))
        for i in range(6):
            odw.query(s, r, name)
            idle(m, c, s.ctx())
        s.checkall(name)
    finally:
        w.stop()
        c.close()
    m.key(tuple(s.log))
    m.sample(s.ctx())


def f_faults(m, r):
    """The database fails in the middle of an operation: none of it happened, and nothing is left behind"""
    NULLS[0] = True
    names = r.sample(NAMES, r.randint(1, 2))
    w, c, g, opener = world(m, r)
    try:
        s = Store(m, opener, g, names, small=r.random() < 0.8)
        for n in names:
            fill(s, r, n, r.randint(0, 6))
        for i in range(8):
            name = r.choice(names)
            keys, props, stream = odw.SETS[name]
            model = s.model[name]
            how = r.choice(['insert', 'insert', 'update', 'update', 'del', 'len', 'values', 'lookup', 'page', 'clear'])
            ck, mvs = s.pick(r, name, how != 'insert')
            if ck is None or (ck in model) != (how != 'insert'):
                continue
            k = odw.nkey(keys, mvs)
            nth = r.choice([1, 1, 2, 2, 3, 4])
            s.log.append('%s %s %s failing at %d' % (how, name, ck, nth))
            failed = w.failed
            raised = None
            with s.open(name) as coll:
                new = dict(model)
                if how == 'insert':
                    e, row = s.new(r, coll, name, mvs)
                    act = lambda: coll.InsertEntity(e)
                    new[ck] = (mvs, row)
                elif how == 'update':
                    e = coll[k]
                    row = s.gen.row(r, name, s.small)
                    odw.put(e, props, row)
                    act = lambda: coll.UpdateEntity(e)
                    new[ck] = (mvs, row)
                elif how == 'del':
                    act = lambda: coll.__delitem__(k)
                    del new[ck]
                elif how == 'clear':
                    act = coll.clear
                    new = {}
                elif how == 'len':
                    act = lambda: len(coll)
                elif how == 'values':
                    act = lambda: list(coll.itervalues())
                elif how == 'lookup':
                    act = lambda: coll[k]
                else:
                    coll.SetPage(3)
                    act = lambda: list(coll.iterpage())
                w.fail = nth
                try:
                    act()
                except Exception as x:
                    raised = x
                w.fail = None
                hit = w.failed > failed
                m.check((raised is not None) == hit, 'fault-hidden' if hit else 'raised-unprovoked', how, raised, s.ctx())
                if raised is None:
                    s.model[name] = new
                elif how == 'insert':
                    m.check(not e.exists, 'failed-insert-exists', s.ctx())
                elif how == 'clear':
                    # (one entity at a time)
                    left = dict((x, model[x]) for x in [odw.pkey(keys, y) for y in coll] if x in model)
                    s.model[name] = left
                if hit:
                    m.count('faults')
                    m.count('fault_' + how)
                # the same collection is still good
                m.check(len(coll) == len(s.model[name]), 'after-fault-length', how, len(coll), len(s.model[name]), s.ctx())
            idle(m, c, s.ctx())
            for n in names:
                s.checkall(n)
            if hit and how == 'insert' and r.random() < 0.5:
                with s.open(name) as coll:
                    coll.InsertEntity(e)
                    s.model[name][ck] = (mvs, row)
                    s.checkentity(name, coll[k], ck, 'retried')
                    m.count('retries')
    finally:
        w.stop()
        c.close()
    m.key(tuple(s.log))
    m.sample(s.ctx())


class World(odl.World):
    """Linking what is linked already may be refused, and what cannot cascade may not be deleted"""

    amb = False
    watch = None
    fault = 0

    def broken(self, action, mech):
        """An action during which a statement may fail: (whether it did, the exception)"""
        w, failed, raised = self.watch, self.watch.failed, None
        w.fail, self.fault = self.fault, 0
        try:
            action()
        except Exception as x:
            raised = x
        w.fail = None
        if w.failed == failed:
            return False, raised
        self.log[-1] += ' (database failure)'
        self.m.check(raised is not None, 'fault-hidden', mech, self.ctx())
        self.m.count('fault_' + mech)
        self.checkall()
        return True, raised

    def op_faultdelete(self, r):
        s = r.choice(self.sets)
        if not self.state.rows[s]:
            return
        k = r.choice(sorted(self.state.rows[s]))
        self.log.append('delete %s(%d) with' % (s, k))
        self.fault = r.randint(1, 6)
        with self.open(s) as coll:
            hit, raised = self.broken(lambda: coll.__delitem__(k), 'cascade')
        if not hit and raised is None:
            for s, k in self.closure(s, k)[0]:
                del self.state.rows[s][k]
                for a in self.assocs:
                    self.state.links[a.name] = set(l for l in self.state.links[a.name] if not any((a.ends[i][0], l[i]) == (s, k) for i in (0, 1)))

    def op_faulty(self, r):
        """One of the others during which the database may fail"""
        self.fault = r.choice([1, 2, 2, 3, 3, 4, 5, 6, 7])
        getattr(self, 'op_' + r.choice(['insert', 'insert', 'navinsert', 'link', 'unlink', 'replace', 'update', 'update']))(r)
        self.fault = 0

    def addlink(self, st, nav, a, b):
        if nav.link(a, b) in st.links[nav.assoc.name]:
            self.amb = True
        odl.World.addlink(self, st, nav, a, b)

    def replace(self, st, nav, a, b):
        old = st.linked(nav, a)
        if b in old:
            self.amb = True
        odl.World.replace(self, st, nav, a, b)

    def attempt(self, change, action, mech):
        if self.fault:
            hit, raised = self.broken(action, mech)
            if hit:
                return None
            done = [raised]

            def action():
                if done[0] is not None:
                    raise done[0]
        self.amb = False
        new = self.state.copy()
        try:
            change(new)
        except odl.Invalid:
            return odl.World.attempt(self, change, action, mech)
        if not self.amb:
            return odl.World.attempt(self, change, action, mech)
        try:
            action()
        except odl.REFUSED:
            self.m.count('refused_again')
            return None
        self.state = new
        return None

    def closure(self, name, key):
        gone, blocked, maybe = odl.World.closure(self, name, key)
        for s, k in gone:
            for a in self.assocs:
                for i, e in enumerate(a.ends):
                    if e[0] == s and e[1] == odl.ONE and e[2] is None:
                        maybe = maybe + [(s, k)]
        return gone, blocked, maybe


def f_links(m, r):
    while True:
        sets, assocs = odl.rschema(r, selfs=False)
        # (optional on both sides is not supported, nor is replacing a 1-1 link)
        assocs = [a for a in assocs if [e[1] for e in a.ends] not in (['0..1', '0..1'], ['1', '1'])]
        if assocs:
            break
    doc = odm.load(odm.edmxdoc(odl.xml(sets, assocs)))
    w = Watch(m)
    c = container(doc, Enforcing)
    try:
        x = World(m, sets, assocs, lambda name: doc.root.DataServices['V.C.' + name].OpenCollection())
        x.watch = w
        odl.history(m, r, x, r.randint(5, 25), odl.OPS + ['faulty'] * 4 + ['faultdelete'])
        idle(m, c, x.ctx())
    finally:
        w.stop()
        c.close()


FAMILIES = [
    Family('histories', f_histories, 350, 6000, {}),
    Family('queries', f_queries, 350, 6000, {}),
    Family('faults', f_faults, 300, 4000, {}),
    Family('links', f_links, 1200, 12000, {}),
]
