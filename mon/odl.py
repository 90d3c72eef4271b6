"""Random association schemas with an independent model of entities and links"""

import odm
import pyslet.odata2.csdl as edm
import pyslet.odata2.core as core

REFUSED = (edm.EDMError, KeyError)
ONE, OPT, MANY = '1', '0..1', '*'


class Assoc(object):
    """L end and R end: (set, multiplicity of that end, navigation property of that set's entities or None)"""

    def __init__(self, name, l, r):
        self.name = name
        self.ends = (l, r)

    def __repr__(self):
        return '%s(%s)' % (self.name, ' - '.join('%s %s %s' % e for e in self.ends))


class Nav(object):
    """A navigation property: from end i of an association"""

    def __init__(self, name, assoc, i):
        self.name, self.assoc, self.i = name, assoc, i
        self.source, self.target = assoc.ends[i][0], assoc.ends[1 - i][0]
        self.mfrom, self.mto = assoc.ends[i][1], assoc.ends[1 - i][1]

    def link(self, a, b):
        return (a, b) if self.i == 0 else (b, a)


def rschema(r, selfs=True, unbound=True):
    sets = ['A', 'B', 'C', 'D'][:r.randint(2, 4)]
    assocs = []
    principal = set()
    for i in range(r.randint(1, 4)):
        a, b = r.choice(sets), r.choice(sets)
        if a == b and not selfs:
            continue
        ms = [ONE, OPT, MANY] if a != b else [OPT, MANY]
        ma, mb = r.choice(ms), r.choice(ms)
        na, nb = 'to%d%s' % (i, 'x' if a == b else b), 'to%d%s' % (i, 'y' if a == b else a)
        k = r.random()
        if unbound and k < 0.15 and not (mb == ONE and a in principal):
            na = None
        elif unbound and k < 0.3 and not (ma == ONE and b in principal):
            nb = None
        # a set can only have one principal it cannot name
        if na is None and mb == ONE:
            principal.add(a)
        if nb is None and ma == ONE:
            principal.add(b)
        assocs.append(Assoc('L%d' % i, (a, ma, na), (b, mb, nb)))
    return sets, assocs


def xml(sets, assocs):
    out, cont = u'', u''
    for s in sets:
        navs = u''.join(u'<NavigationProperty Name="%s" Relationship="V.%s" FromRole="%s" ToRole="%s"/>' % (e[2], a.name, 'LR'[i], 'RL'[i])
                        for a in assocs for i, e in enumerate(a.ends) if e[0] == s and e[2])
        out += (u'<EntityType Name="%sType"><Key><PropertyRef Name="ID"/></Key><Property Name="ID" Type="Edm.Int32" Nullable="false"/>'
                u'<Property Name="Data" Type="Edm.String" Nullable="true"/>%s</EntityType>') % (s, navs)
        cont += u'<EntitySet Name="%s" EntityType="V.%sType"/>' % (s, s)
    for a in assocs:
        out += u'<Association Name="%s">%s</Association>' % (a.name, u''.join(
            u'<End Role="%s" Type="V.%sType" Multiplicity="%s"/>' % ('LR'[i], e[0], e[1]) for i, e in enumerate(a.ends)))
        cont += u'<AssociationSet Name="%s" Association="V.%s">%s</AssociationSet>' % (a.name, a.name, u''.join(
            u'<End Role="%s" EntitySet="%s"/>' % ('LR'[i], e[0]) for i, e in enumerate(a.ends)))
    return u'<EntityContainer Name="C" m:IsDefaultEntityContainer="true">%s</EntityContainer>%s' % (cont, out)


class Node(object):
    """An entity to be inserted with its bindings: [(nav, [('key', k) | ('entity', k) | Node])]"""

    def __init__(self, name, key, data):
        self.name, self.key, self.data, self.bindings = name, key, data, []

    def __repr__(self):
        return '%s(%d%s)' % (self.name, self.key, ''.join(', %s: %s' % (n.name, [t if isinstance(t, Node) else '%s %d' % t for t in ts]) for n, ts in self.bindings))


class Invalid(Exception):
    pass


class State(object):

    def __init__(self, sets, assocs):
        self.rows = dict((s, {}) for s in sets)
        self.links = dict((a.name, set()) for a in assocs)

    def copy(self):
        new = State([], [])
        new.rows = dict((s, dict(v)) for s, v in self.rows.items())
        new.links = dict((s, set(v)) for s, v in self.links.items())
        return new

    def linked(self, nav, key):
        i = nav.i
        return sorted(l[1 - i] for l in self.links[nav.assoc.name] if l[i] == key)


class World(object):

    def __init__(self, m, sets, assocs, opener):
        self.m, self.sets, self.assocs, self.open = m, sets, assocs, opener
        self.navs = dict((s, [Nav(e[2], a, i) for a in assocs for i, e in enumerate(a.ends) if e[0] == s and e[2]]) for s in sets)
        self.state = State(sets, assocs)
        self.log = []

    def ctx(self):
        return '%s | %s' % (self.assocs, '; '.join(self.log[-12:]))

    # ------------------------------------------------------------ the rules
    def addlink(self, st, nav, a, b):
        l = nav.link(a, b)
        if l in st.links[nav.assoc.name]:
            return
        if nav.mto != MANY and st.linked(nav, a):
            raise Invalid('%s %d already has a link by %s' % (nav.source, a, nav.name))
        i = nav.i
        if nav.mfrom != MANY and any(x[1 - i] == b for x in st.links[nav.assoc.name]):
            raise Invalid('%s %d already linked by %s' % (nav.target, b, nav.name))
        st.links[nav.assoc.name].add(l)

    def insert(self, st, node, via=None):
        """via (association, index of this node's end)"""
        if node.key in st.rows[node.name]:
            raise Invalid('duplicate')
        st.rows[node.name][node.key] = node.data
        bound = [n for n, ts in node.bindings if ts]
        for a in self.assocs:
            for i, e in enumerate(a.ends):
                # each of us needs exactly one of the other end
                if e[0] == node.name and a.ends[1 - i][1] == ONE and via != (a, i):
                    if not any(n.assoc is a and n.i == i for n in bound):
                        raise Invalid('required %s' % a.name)
        for nav, ts in node.bindings:
            for t in ts:
                if isinstance(t, Node):
                    self.insert(st, t, (nav.assoc, 1 - nav.i))
                    self.addlink(st, nav, node.key, t.key)
                else:
                    if t[1] not in st.rows[nav.target]:
                        raise Invalid('missing')
                    self.addlink(st, nav, node.key, t[1])

    def link(self, st, nav, a, b):
        if b not in st.rows[nav.target]:
            raise Invalid('missing')
        self.addlink(st, nav, a, b)

    def unlink(self, st, nav, a, b):
        if ONE in (nav.mfrom, nav.mto):
            raise Invalid('required')
        l = nav.link(a, b)
        if l not in st.links[nav.assoc.name]:
            raise Invalid('not linked')
        st.links[nav.assoc.name].discard(l)

    def replace(self, st, nav, a, b):
        if b not in st.rows[nav.target]:
            raise Invalid('missing')
        old = st.linked(nav, a)
        if old == [b]:
            return
        if nav.mfrom == ONE and old:
            raise Invalid('required')
        for x in old:
            st.links[nav.assoc.name].discard(nav.link(a, x))
        self.addlink(st, nav, a, b)

    def closure(self, name, key):
        """What is deleted with an entity; blocked (must be refused), ambiguous"""
        gone, todo = set(), [(name, key)]
        pending = []
        while todo:
            x = todo.pop()
            if x in gone:
                continue
            gone.add(x)
            for a in self.assocs:
                for i, e in enumerate(a.ends):
                    if e[0] != x[0] or e[1] != ONE:
                        continue
                    others = [l[1 - i] for l in self.state.links[a.name] if l[i] == x[1]]
                    for o in others:
                        y = (a.ends[1 - i][0], o)
                        if e[2] is None:
                            pending.append(y)
                        else:
                            todo.append(y)
        return gone, [y for y in pending if y not in gone], [y for y in pending if y in gone]

    # ------------------------------------------------------------ checks
    def checkall(self):
        m, st = self.m, self.state
        for s in self.sets:
            with self.open(s) as coll:
                m.check(sorted(coll.keys()) == sorted(st.rows[s]), 'entities', s, sorted(coll.keys()), sorted(st.rows[s]), self.ctx())
                for k in st.rows[s]:
                    if k not in coll:
                        continue
                    e = coll[k]
                    m.check(e['Data'].value == st.rows[s][k], 'data', s, k, e['Data'].value, st.rows[s][k], self.ctx())
                    for nav in self.navs[s]:
                        want = st.linked(nav, k)
                        with e[nav.name].OpenCollection() as nc:
                            got = sorted(nc.keys())
                            m.check(got == want and len(nc) == len(want), 'links', s, k, nav.name, got, want, self.ctx())
                            m.check(sorted(x.Key() for x in nc.itervalues()) == want, 'link-values', s, k, nav.name, want, self.ctx())
                        if nav.mto != MANY:
                            t = e[nav.name].GetEntity()
                            m.check((t is None and not want) or (t is not None and [t.Key()] == want), 'link-entity', s, k, nav.name, self.ctx())
                        m.check(e[nav.name].isCollection == (nav.mto == MANY) and e[nav.name].isRequired == (nav.mto == ONE), 'nav-flags', s, nav.name, self.ctx())
                        m.count('linksets')
                        if want:
                            m.count('nonempty_linksets')
        m.count('states')

    def attempt(self, change, action, mech):
        """Run an action that the rules say succeeds or not"""
        m = self.m
        new = self.state.copy()
        try:
            change(new)
        except Invalid as why:
            try:
                action()
            except REFUSED as x:
                m.count('refused_' + mech)
                return False
            m.violate(mech + '-accepted', '%s %s' % (why, self.ctx()))
            return None
        try:
            action()
        except REFUSED as x:
            m.violate(mech + '-refused', '%s %s %s' % (type(x).__name__, x, self.ctx()))
            return None
        self.state = new
        m.count(mech)
        return True

    # ------------------------------------------------------------ operations
    def rkey(self, r, name, exists=None):
        ks = sorted(self.state.rows[name])
        if exists is None:
            exists = r.random() < 0.75
        if exists and ks:
            return r.choice(ks)
        return r.choice([1000, 1001, 2000])

    def rnode(self, r, name, depth=0, via=None):
        free = [k for k in range(10) if k not in self.state.rows[name]]
        key = r.choice(free) if free and r.random() < 0.85 else r.randrange(10)
        node = Node(name, key, r.choice([None, u'', u'a', u'x y', u'%d' % r.randrange(1000)]))
        for nav in self.navs[name]:
            if via is not None and via == (nav.assoc, nav.i):
                continue
            need = nav.mto == ONE
            if r.random() < (0.9 if need else 0.3):
                n = r.randint(1, 3) if nav.mto == MANY else 1
                ts = []
                for i in range(n):
                    if depth < 2 and r.random() < 0.4:
                        ts.append(self.rnode(r, nav.target, depth + 1, (nav.assoc, 1 - nav.i)))
                    else:
                        exists = None if r.random() < 0.3 else True
                        k = self.rkey(r, nav.target, exists)
                        if nav.mfrom != MANY and r.random() < 0.6:
                            # prefer one that can be linked
                            fr = [x for x in sorted(self.state.rows[nav.target])
                                  if not any(l[1 - nav.i] == x for l in self.state.links[nav.assoc.name])]
                            k = r.choice(fr) if fr else k
                        ts.append((r.choice(['key', 'entity']) if k in self.state.rows[nav.target] else 'key', k))
                node.bindings.append((nav, ts))
        return node

    def entity(self, node, coll):
        e = coll.NewEntity()
        e['ID'].SetFromValue(node.key)
        e['Data'].SetFromValue(node.data)
        self.bind(e, node.bindings)
        return e

    def bind(self, e, bindings):
        for nav, ts in bindings:
            for t in ts:
                with self.open(nav.target) as tc:
                    if isinstance(t, Node):
                        e[nav.name].BindEntity(self.entity(t, tc))
                    elif t[0] == 'entity':
                        e[nav.name].BindEntity(tc[t[1]])
                    else:
                        e[nav.name].BindEntity(t[1])

    def op_insert(self, r):
        s = r.choice(self.sets)
        node = self.rnode(r, s)
        self.log.append('insert %r' % node)
        with self.open(s) as coll:
            e = self.entity(node, coll)
            ok = self.attempt(lambda st: self.insert(st, node), lambda: coll.InsertEntity(e), 'insert')
            if ok is False:
                self.m.check(not e.exists, 'refused-exists', self.ctx())
            elif ok:
                self.m.check(e.exists and not any(e[n.name].bindings for n in self.navs[s]), 'inserted-bindings', self.ctx())
                if any(isinstance(t, Node) for n, ts in node.bindings for t in ts):
                    self.m.count('deep')
                if any(ts for n, ts in node.bindings):
                    self.m.count('bound_inserts')

    def source(self, r):
        """(nav, entity) of something that exists"""
        opts = [(nav, k) for s in self.sets for nav in self.navs[s] for k in sorted(self.state.rows[s])]
        if not opts:
            return None, None
        nav, k = r.choice(opts)
        with self.open(nav.source) as coll:
            return nav, coll[k]

    def op_navinsert(self, r):
        nav, e = self.source(r)
        if nav is None:
            return
        node = self.rnode(r, nav.target, 1, (nav.assoc, 1 - nav.i))
        k = e.Key()
        self.log.append('%s(%d)/%s.insert %r' % (nav.source, k, nav.name, node))
        with e[nav.name].OpenCollection() as nc:
            def change(st):
                self.insert(st, node, (nav.assoc, 1 - nav.i))
                self.addlink(st, nav, k, node.key)
            self.attempt(change, lambda: nc.InsertEntity(self.entity(node, nc)), 'navinsert')

    def target(self, r, nav, k):
        """A key, a stale flag and an entity of the target set"""
        key = self.rkey(r, nav.target, True if r.random() < 0.9 else None)
        if r.random() < 0.4:
            own = self.state.linked(nav, k)
            if own:
                key = r.choice(own)
        with self.open(nav.target) as coll:
            if key in self.state.rows[nav.target]:
                return key, coll[key]
            e = coll.NewEntity()
            e['ID'].SetFromValue(key)
            return key, e

    def op_link(self, r):
        nav, e = self.source(r)
        if nav is None:
            return
        k = e.Key()
        key, t = self.target(r, nav, k)
        self.log.append('%s(%d)/%s[%d]=' % (nav.source, k, nav.name, key))
        with e[nav.name].OpenCollection() as nc:
            def act():
                nc[key] = t
            self.attempt(lambda st: self.link(st, nav, k, key), act, 'link')
            if r.random() < 0.2:
                def act():
                    nc[key + 1] = t
                self.m.raises(ValueError, 'link-wrong-key', act, ctx=self.ctx())
            if r.random() < 0.2 and len(self.sets) > 1:
                other = r.choice([s for s in self.sets if s != nav.target])
                with self.open(other) as oc:
                    oe = oc.NewEntity()
                    oe['ID'].SetFromValue(key)
                    def act():
                        nc[key] = oe
                    self.m.raises(TypeError, 'link-wrong-set', act, ctx=self.ctx())

    def op_unlink(self, r):
        nav, e = self.source(r)
        if nav is None:
            return
        k = e.Key()
        key, t = self.target(r, nav, k)
        self.log.append('del %s(%d)/%s[%d]' % (nav.source, k, nav.name, key))
        with e[nav.name].OpenCollection() as nc:
            def act():
                del nc[key]
            self.attempt(lambda st: self.unlink(st, nav, k, key), act, 'unlink')

    def op_replace(self, r):
        nav, e = self.source(r)
        if nav is None:
            return
        k = e.Key()
        key, t = self.target(r, nav, k)
        self.log.append('%s(%d)/%s.replace %d' % (nav.source, k, nav.name, key))
        with e[nav.name].OpenCollection() as nc:
            self.attempt(lambda st: self.replace(st, nav, k, key), lambda: nc.Replace(t), 'replace')

    def op_update(self, r):
        """Data and bindings together"""
        nav, e = self.source(r)
        if nav is None:
            return
        k = e.Key()
        data = r.choice([None, u'u%d' % r.randrange(1000)])
        ts = []
        for i in range(r.randint(0, 3) if nav.mto == MANY else 1):
            if r.random() < 0.25 and (nav.mto == MANY or not self.state.linked(nav, k)):
                ts.append(self.rnode(r, nav.target, 1, (nav.assoc, 1 - nav.i)))
            else:
                key, t = self.target(r, nav, k)
                ts.append(('key', key))
        self.log.append('update %s(%d) bind %s %r' % (nav.source, k, nav.name, ts))
        with self.open(nav.source) as coll:
            e = coll[k]
            e['Data'].SetFromValue(data)
            self.bind(e, [(nav, ts)])
            def change(st):
                st.rows[nav.source][k] = data
                for t in ts:
                    if isinstance(t, Node):
                        self.insert(st, t, (nav.assoc, 1 - nav.i))
                        self.addlink(st, nav, k, t.key)
                    elif nav.mto == MANY:
                        self.link(st, nav, k, t[1])
                    else:
                        self.replace(st, nav, k, t[1])
            self.attempt(change, (lambda: coll.UpdateEntity(e)) if r.random() < 0.5 else e.Update, 'update')

    def op_delete(self, r):
        s = r.choice(self.sets)
        if not self.state.rows[s]:
            return
        k = r.choice(sorted(self.state.rows[s]))
        gone, blocked, maybe = self.closure(s, k)
        self.log.append('delete %s(%d)' % (s, k))
        m = self.m
        with self.open(s) as coll:
            try:
                if r.random() < 0.5:
                    del coll[k]
                else:
                    coll[k].Delete()
                done = True
            except (edm.NavigationConstraintError, edm.ConstraintError):
                done = False
        if not done:
            m.check(bool(blocked or maybe), 'delete-refused', self.ctx())
            m.count('blocked')
            return
        if not m.check(not blocked, 'delete-accepted', blocked, self.ctx()):
            return
        for s, k in gone:
            del self.state.rows[s][k]
        for a in self.assocs:
            self.state.links[a.name] = set(l for l in self.state.links[a.name]
                                           if not any((a.ends[i][0], l[i]) in gone for i in (0, 1)))
        m.count('deletes')
        if len(gone) > 1:
            m.count('cascades')

    def op_stale(self, r):
        """Linking from or to what has gone"""
        nav, e = self.source(r)
        if nav is None or ONE in (nav.mfrom, nav.mto):
            return
        k = e.Key()
        key, t = self.target(r, nav, k)
        if key not in self.state.rows[nav.target]:
            return
        vs, vk = (nav.source, k) if r.random() < 0.5 else (nav.target, key)
        gone, blocked, maybe = self.closure(vs, vk)
        if blocked or maybe or len(gone) > 1:
            return
        self.log.append('stale %s(%d) %s(%d)/%s' % (vs, vk, nav.source, k, nav.name))
        with e[nav.name].OpenCollection() as nc:
            with self.open(vs) as coll:
                del coll[vk]
            del self.state.rows[vs][vk]
            for a in self.assocs:
                self.state.links[a.name] = set(l for l in self.state.links[a.name] if not any((a.ends[i][0], l[i]) in gone for i in (0, 1)))
            def act():
                if r.random() < 0.5:
                    nc[key] = t
                else:
                    nc.Replace(t)
            try:
                act()
            except REFUSED:
                self.m.count('stale')
            else:
                self.m.violate('stale-linked', self.ctx())

    def op_query(self, r):
        """Reading through navigation"""
        m = self.m
        nav, e = self.source(r)
        if nav is None:
            return
        k = e.Key()
        want = self.state.linked(nav, k)
        rows = self.state.rows[nav.target]
        self.log.append('query %s(%d)/%s' % (nav.source, k, nav.name))
        with e[nav.name].OpenCollection() as nc:
            for x in list(rows) + [1000]:
                m.check((x in nc) == (x in want), 'nav-contains', x, want, self.ctx())
                if x in want:
                    t = nc[x]
                    m.check(t.Key() == x and t['Data'].value == rows[x] and t.exists, 'nav-entity', x, self.ctx())
            c = r.randrange(10)
            nc.Filter(core.CommonExpression.FromString(u'ID ge %d' % c))
            nc.OrderBy(core.CommonExpression.OrderByFromString(u'ID desc'))
            sub = [x for x in reversed(want) if x >= c]
            m.check([x.Key() for x in nc.itervalues()] == sub and len(nc) == len(sub), 'nav-filter', c, want, self.ctx())
            for x in want:
                m.check((x in nc) == (x in sub), 'nav-filter-contains', x, c, self.ctx())
            top = r.randint(1, 3)
            nc.SetPage(top)
            pages = []
            for i in range(12):
                p = [x.Key() for x in nc.iterpage(True)]
                if not p:
                    break
                pages.append(p)
            m.check(pages == [sub[i:i + top] for i in range(0, len(sub), top)], 'nav-pages', pages, sub, self.ctx())
            m.count('navqueries')

    def op_expand(self, r):
        m = self.m
        s = r.choice(self.sets)
        if not self.navs[s] or not self.state.rows[s]:
            return

        def tree(s, depth):
            out = {}
            for nav in self.navs[s]:
                if r.random() < 0.7:
                    out[nav.name] = tree(nav.target, depth - 1) if depth and self.navs[nav.target] and r.random() < 0.5 else None
            return out or None
        exp = tree(s, 2)
        select = None
        if r.random() < 0.4:
            select = {r.choice(['ID', 'Data', '*']): None}
            for n in exp or {}:
                select[n] = r.choice([None, {'ID': None}, {'Data': None}, {'*': None}]) if exp[n] is None else None
        self.log.append('expand %s %s %s' % (s, exp, select))

        def verify(s, e, exp, select, top=False):
            k = e.Key()
            seen = self.state.rows[s][k] if select is None or 'Data' in select or '*' in select else None
            m.check(e['Data'].value == seen, 'expanded-data', s, k, e['Data'].value, select, self.ctx())
            for nav in self.navs[s]:
                if not m.check(e[nav.name].isExpanded == (nav.name in (exp or {})), 'expanded', s, k, nav.name, self.ctx()):
                    continue
                if not e[nav.name].isExpanded:
                    continue
                want = self.state.linked(nav, k)
                with e[nav.name].OpenCollection() as nc:
                    m.check(sorted(nc.keys()) == want and len(nc) == len(want), 'expanded-links', s, k, nav.name, nc.keys(), want, self.ctx())
                    sub = None
                    if select is not None and nav.name in select:
                        sub = select[nav.name] or {'*': None}
                    for t in nc.itervalues():
                        verify(nav.target, t, exp[nav.name], sub)
                    for x in want:
                        m.check(x in nc and nc[x].Key() == x, 'expanded-lookup', x, self.ctx())
                    m.check(1000 not in nc, 'expanded-contains', self.ctx())
                    m.count('expansions')
        with self.open(s) as coll:
            coll.Expand(exp, select)
            for e in coll.itervalues():
                verify(s, e, exp, select, True)
            k = r.choice(sorted(self.state.rows[s]))
            verify(s, coll[k], exp, select, True)
            if select is None:
                # expansion of what a navigation gives
                for nav in self.navs[s]:
                    t = r.choice(self.navs[nav.target]) if self.navs[nav.target] else None
                    if t is None:
                        continue
                    with self.open(s) as c2:
                        with c2[k][nav.name].OpenCollection() as nc:
                            nc.Expand({t.name: None})
                            for x in nc.itervalues():
                                verify(nav.target, x, {t.name: None}, None)
                            for x in self.state.linked(nav, k):
                                verify(nav.target, nc[x], {t.name: None}, None)


OPS = ['insert'] * 8 + ['navinsert'] * 3 + ['link'] * 4 + ['unlink'] * 2 + ['replace'] * 3 + ['update'] * 3 + ['delete'] * 2 + ['stale', 'query', 'query', 'expand']


def history(m, r, w, n, ops=OPS):
    for i in range(n):
        getattr(w, 'op_' + r.choice(ops))(r)
        if r.random() < 0.5:
            w.checkall()
    w.checkall()
    m.key(tuple(w.log))
    m.sample(w.ctx())
