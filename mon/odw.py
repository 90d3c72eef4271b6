"""A world of entity sets with an independent model of their contents, for any data store"""

import decimal
import o01
import odm
from o01 import same, native, plain
import pyslet.odata2.csdl as edm
import pyslet.odata2.core as core
import pyslet.rfc2616 as http

# entity set: (keys, other properties, has a media stream)
COMPLEX = {'CType': [('X', 'Int32'), ('Y', 'String'), ('Z', 'NType')], 'NType': [('W', 'Int16'), ('V', 'DateTime')]}
SETS = {
    'Items': ([('ID', 'Int32')], [('A', 'Int32'), ('N', 'String'), ('B', 'Boolean'), ('D', 'Double'), ('P', 'Decimal'), ('T', 'DateTime'),
                                  ('G', 'Guid'), ('X', 'Binary'), ('L', 'Int64'), ('F', 'Single'), ('O', 'DateTimeOffset'), ('M', 'Time'),
                                  ('S', 'SByte'), ('U', 'Byte'), ('H', 'Int16'), ('C', 'CType')], False),
    'Names': ([('Name', 'String')], [('A', 'Int32'), ('N', 'String')], False),
    'Pairs': ([('K1', 'String'), ('K2', 'Int32')], [('N', 'String'), ('A', 'Int32'), ('C', 'CType')], False),
    'Stamps': ([('Key', 'DateTime')], [('A', 'Int32'), ('N', 'String')], False),
    'Guids': ([('Key', 'Guid')], [('A', 'Int32'), ('N', 'String')], False),
    'Longs': ([('Key', 'Int64')], [('A', 'Int32'), ('N', 'String')], False),
    'Decs': ([('Key', 'Decimal')], [('A', 'Int32'), ('N', 'String')], False),
    'Docs': ([('ID', 'Int32')], [('A', 'Int32'), ('N', 'String')], True),
}
TIMES = ('DateTime', 'DateTimeOffset', 'Time')


def prop(n, t, key, facets):
    if t in COMPLEX:
        return u'<Property Name="%s" Type="V.%s" Nullable="false"/>' % (n, t)
    f = ' Precision="7"' if t in TIMES else facets.get(t, '')
    return u'<Property Name="%s" Type="Edm.%s" Nullable="%s"%s/>' % (n, t, 'false' if key else 'true', f)


def schema(names=None, facets={}, extra='', extraset=''):
    sets, types = u'', u''
    for n in sorted(names or SETS):
        keys, props, stream = SETS[n]
        sets += u'<EntitySet Name="%s" EntityType="V.%sType"/>' % (n, n)
        types += u'<EntityType Name="%sType"%s><Key>%s</Key>%s%s</EntityType>' % (
            n, ' m:HasStream="true"' if stream else '', u''.join(u'<PropertyRef Name="%s"/>' % k for k, t in keys),
            u''.join(prop(k, t, True, facets) for k, t in keys), u''.join(prop(k, t, False, facets) for k, t in props))
    for c in COMPLEX:
        types += u'<ComplexType Name="%s">%s</ComplexType>' % (c, u''.join(prop(k, t, False, facets) for k, t in COMPLEX[c]))
    return u'<EntityContainer Name="C" m:IsDefaultEntityContainer="true">%s%s</EntityContainer>%s%s' % (sets, extraset, types, extra)


class Gen(object):
    """Values acceptable to the store under test"""

    def simple(self, r, t):
        if t == 'Double' or t == 'Single':
            while True:
                x = o01.model(r, t)
                if x == x and abs(x) < 1e300 and (t == 'Double' or abs(x) < 3.4e38):
                    return x
        if t == 'String':
            # (Jython cannot index strings of characters beyond the BMP)
            return u''.join(c for c in o01.model(r, t) if 0 < ord(c) < 0x10000)
        return o01.model(r, t)

    def value(self, r, t, nulls=0.25):
        if t in COMPLEX:
            return dict((n, self.value(r, ct, nulls)) for n, ct in COMPLEX[t])
        return None if r.random() < nulls else self.simple(r, t)

    def key(self, r, keys, small):
        out = []
        for n, t in keys:
            if small and t in ('Int32', 'Int64'):
                out.append(r.randrange(12))
            elif small and t == 'String':
                out.append(r.choice([u'a', u'b', u'A', u"o'x", u'z z', u'\xe9', u'ab', u'10', u'9', u'a/b', u'']))
            else:
                out.append(self.simple(r, t))
        return tuple(out)

    def row(self, r, name, small):
        keys, props, stream = SETS[name]
        row = {}
        for n, t in props:
            if small and n == 'A':
                row[n] = r.choice([None, 0, 1, 2, 3, 4, 5])
            elif small and n == 'N':
                row[n] = r.choice([None, u'', u'a', u'b', u'ab', u"it's", u'\xe9', u'B'])
            else:
                row[n] = self.value(r, t)
        return row


def canon(t, mv):
    if t == 'Decimal':
        d = decimal.Decimal(mv).normalize(decimal.Context(prec=100))
        return '0' if d == 0 else str(d)
    return mv


def ckey(keys, mvs):
    return tuple(canon(t, mv) for (n, t), mv in zip(keys, mvs))


def nkey(keys, mvs):
    """The key as the documentation says it is represented"""
    out = tuple(native(t, mv) for (n, t), mv in zip(keys, mvs))
    return out[0] if len(out) == 1 else out


def pkey(keys, key):
    """Back from a python key to the model"""
    key = (key,) if len(keys) == 1 else key
    return ckey(keys, [plain(t, v) for (n, t), v in zip(keys, key)])


def put(e, props, row):
    for n, t in props:
        if n in row:
            if t in COMPLEX:
                put(e[n], COMPLEX[t], row[n])
            else:
                e[n].SetFromValue(None if row[n] is None else native(t, row[n]))


def differs(e, props, row):
    """None or the path of the first difference"""
    for n, t in props:
        v = e[n]
        if t in COMPLEX:
            if not isinstance(v, edm.Complex):
                return n
            x = differs(v, COMPLEX[t], row[n] if row is not None else None)
            if x:
                return n + '/' + x
        else:
            want = row[n] if row is not None else None
            if want is None or v.value is None:
                if (want is None) != (v.value is None):
                    return '%s: %r not %r' % (n, v.value, want)
            elif not same(t, plain(t, v.value), want):
                return '%s: %r not %r' % (n, v.value, want)
    return None


class Store(object):
    """A container under test and the model of what is in it.

    open(name) returns a collection of an entity set."""

    def __init__(self, m, opener, gen, names, trace=None, small=True):
        self.m = m
        self.open = opener
        self.gen = gen
        self.names = names
        self.model = dict((n, {}) for n in names)      # canonical key -> (key values, row)
        self.streams = dict((n, {}) for n in names)
        self.log = trace if trace is not None else []
        self.small = small
        self.partial = False

    def ctx(self):
        return '; '.join(self.log[-14:])

    def keydefs(self, name):
        return SETS[name][0]

    def checkentity(self, name, e, ck, mech, select=None):
        m = self.m
        keys, props, stream = SETS[name]
        mvs, row = self.model[name][ck]
        m.check(e.exists, mech + '-exists', name, ck, self.ctx())
        if not m.check(pkey(keys, e.Key()) == ck, mech + '-key', name, repr(e.Key()), ck, self.ctx()):
            return
        if select is not None and '*' not in select:
            row = dict((n, row[n] if n in select else (None if t not in COMPLEX else blank(t))) for n, t in props)
        x = differs(e, props, row)
        m.check(x is None, mech + '-value', name, ck, x, self.ctx())

    def checkall(self, name):
        """Everything that can be asked about a set agrees with the model"""
        m = self.m
        keys, props, stream = SETS[name]
        model = self.model[name]
        with self.open(name) as coll:
            m.check(len(coll) == len(model), 'length', name, len(coll), len(model), self.ctx())
            got = [pkey(keys, k) for k in coll]
            m.check(sorted(got) == sorted(model), 'keys', name, sorted(got), sorted(model), self.ctx())
            for e in coll.itervalues():
                ck = pkey(keys, e.Key())
                if m.check(ck in model, 'values', name, ck, self.ctx()):
                    self.checkentity(name, e, ck, 'values')
            for ck in model:
                k = nkey(keys, model[ck][0])
                try:
                    e = coll[k]
                except KeyError:
                    m.violate('lookup-missing', '%s %r %s' % (name, k, self.ctx()))
                    continue
                self.checkentity(name, e, ck, 'lookup')
                m.check(k in coll, 'contains', name, repr(k), self.ctx())
                m.count('lookups')
            m.count('states')
        return True

    # ------------------------------------------------------------ operations
    def pick(self, r, name, exists=None):
        """A key: (canonical, values)"""
        keys = SETS[name][0]
        model = self.model[name]
        if model and (exists or (exists is None and r.random() < 0.6)):
            ck = r.choice(sorted(model))
            return ck, model[ck][0]
        for i in range(30):
            mvs = self.gen.key(r, keys, self.small)
            ck = ckey(keys, mvs)
            if exists is None or (ck in model) == exists:
                return ck, mvs
        return None, None

    def new(self, r, coll, name, mvs):
        keys, props, stream = SETS[name]
        row = self.gen.row(r, name, self.small)
        e = coll.NewEntity()
        self.m.check(not e.exists, 'new-exists', name, self.ctx())
        if mvs is not None:
            for (n, t), mv in zip(keys, mvs):
                e[n].SetFromValue(native(t, mv))
        put(e, props, row)
        return e, row


def blank(t):
    return dict((n, None if ct not in COMPLEX else blank(ct)) for n, ct in COMPLEX[t])


# ------------------------------------------------------------ histories
def op_insert(s, r, name):
    keys = SETS[name][0]
    ck, mvs = s.pick(r, name)
    s.log.append('insert %s %s' % (name, ck))
    with s.open(name) as coll:
        hide = r.random() < 0.2
        if hide:
            # a filter that hides everything is no licence to overwrite
            coll.Filter(core.CommonExpression.FromString(u"A eq 77"))
        e, row = s.new(r, coll, name, mvs)
        if s.partial and r.random() < 0.15:
            # properties left out of the insertion get their defaults
            sel = [n for n, t in r.sample(SETS[name][1], r.randint(1, len(row)))]
            e.Expand(None, dict((n, None) for n in sel))
            row = dict((n, row[n] if n in sel else (blank(t) if t in COMPLEX else None)) for n, t in SETS[name][1])
            s.m.count('partial_inserts')
        if ck in s.model[name]:
            try:
                coll.InsertEntity(e)
            except edm.ConstraintError:
                s.m.count('duplicates')
            else:
                s.m.violate('duplicate-accepted', '%s %s %s' % (name, ck, s.ctx()))
            s.m.check(not e.exists, 'refused-exists', name, ck, s.ctx())
            return
        coll.InsertEntity(e)
        s.model[name][ck] = (mvs, row)
        s.checkentity(name, e, ck, 'inserted')
        s.m.count('inserts')
        if r.random() < 0.5:
            # what we do to our copy afterwards is our business
            put(e, SETS[name][1], s.gen.row(r, name, s.small))


def op_autokey(s, r, name):
    keys = SETS[name][0]
    if len(keys) > 1 or keys[0][1] not in ('Int32', 'Int64'):
        return op_insert(s, r, name)
    if any(ck[0] >= 2 ** 31 - 100 for ck in s.model[name]):
        return
    with s.open(name) as coll:
        e, row = s.new(r, coll, name, None)
        coll.InsertEntity(e)
        mv = plain(keys[0][1], e.Key())
        ck = ckey(keys, (mv,))
        s.log.append('autokey %s %s' % (name, ck))
        if s.m.check(ck not in s.model[name], 'autokey-reused', name, ck, s.ctx()):
            s.model[name][ck] = ((mv,), row)
            s.checkentity(name, e, ck, 'autokey')
            s.m.count('autokeys')


def op_update(s, r, name):
    ck, mvs = s.pick(r, name, True)
    if ck is None or ck not in s.model[name]:
        return
    keys, props, stream = SETS[name]
    row = s.model[name][ck][1]
    with s.open(name) as coll:
        select = None
        if r.random() < 0.4:
            select = dict((n, None) for n, t in r.sample(props, r.randint(1, len(props))))
            coll.Expand(None, select)
        e = coll[nkey(keys, mvs)]
        s.checkentity(name, e, ck, 'fetched', select)
        change = s.gen.row(r, name, s.small)
        if select is not None:
            change = dict((n, v) for n, v in change.items() if n in select)
        for n in list(change):
            if r.random() < 0.3 and len(change) > 1:
                del change[n]
        s.log.append('update %s %s %s%s' % (name, ck, ','.join(sorted(change)), '' if select is None else ' of ' + ','.join(sorted(select))))
        put(e, props, change)
        if r.random() < 0.5:
            coll.UpdateEntity(e)
        else:
            e.Update()
        new = dict(row)
        new.update(change)
        s.model[name][ck] = (mvs, new)
        s.m.count('updates')
        if select is not None:
            s.m.count('partial_updates')
        if r.random() < 0.5:
            put(e, props, s.gen.row(r, name, s.small))


def op_scribble(s, r, name):
    """Changes that are never saved"""
    ck, mvs = s.pick(r, name, True)
    if ck is None or ck not in s.model[name]:
        return
    s.log.append('scribble %s %s' % (name, ck))
    keys, props, stream = SETS[name]
    with s.open(name) as coll:
        e = coll[nkey(keys, mvs)]
        other = coll[nkey(keys, mvs)]
        put(e, props, s.gen.row(r, name, s.small))
        s.checkentity(name, other, ck, 'shared')
        for v in coll.itervalues():
            put(v, props, s.gen.row(r, name, s.small))
        s.checkentity(name, coll[nkey(keys, mvs)], ck, 'shared')
        s.m.count('scribbles')


def op_delete(s, r, name):
    ck, mvs = s.pick(r, name)
    if ck is None:
        return
    keys = SETS[name][0]
    k = nkey(keys, mvs)
    how = r.choice(['del', 'del', 'entity', 'pop', 'popitem', 'clear'] if r.random() < 0.5 else ['del', 'entity', 'pop'])
    s.log.append('%s %s %s' % (how, name, ck))
    model = s.model[name]
    with s.open(name) as coll:
        if how == 'clear':
            coll.clear()
            model.clear()
            s.streams[name].clear()
            return
        if how == 'popitem':
            if not model:
                s.m.raises(KeyError, 'popitem-empty', coll.popitem, ctx=s.ctx())
                return
            k, e = coll.popitem()
            ck = pkey(keys, k)
            if not s.m.check(ck in model, 'popitem-unknown', name, ck, s.ctx()):
                return
            s.checkvalue(e, ck) if False else None
        elif ck not in model:
            s.m.check(k not in coll, 'contains-deleted', name, ck, s.ctx())
            s.m.check(not coll.has_key(k), 'haskey-deleted', name, ck, s.ctx())
            marker = object()
            s.m.check(coll.get(k, marker) is marker, 'get-deleted', name, ck, s.ctx())
            s.m.raises(KeyError, 'lookup-deleted', lambda: coll[k], ctx=s.ctx())
            if how == 'pop':
                s.m.check(coll.pop(k, marker) is marker, 'pop-deleted', name, ck, s.ctx())
            else:
                def rm():
                    del coll[k]
                s.m.raises(KeyError, 'delete-deleted', rm, ctx=s.ctx())
            s.m.count('missing')
            return
        elif how == 'pop':
            e = coll.pop(k)
            s.m.check(pkey(keys, e.Key()) == ck, 'pop', name, ck, s.ctx())
        elif how == 'entity':
            e = coll[k]
            e.Delete()
            s.m.check(not e.exists, 'deleted-exists', name, ck, s.ctx())
            if r.random() < 0.5:
                s.m.raises((KeyError, edm.NonExistentEntity), 'update-deleted', coll.UpdateEntity, e, ctx=s.ctx())
        else:
            del coll[k]
        del model[ck]
        s.streams[name].pop(ck, None)
        s.m.count('deletes')
        s.m.check(k not in coll, 'contains-deleted', name, ck, s.ctx())


def op_stale(s, r, name):
    """An entity deleted behind our back"""
    ck, mvs = s.pick(r, name, True)
    if ck is None or ck not in s.model[name]:
        return
    s.log.append('stale %s %s' % (name, ck))
    keys, props, stream = SETS[name]
    with s.open(name) as coll:
        e = coll[nkey(keys, mvs)]
        with s.open(name) as c2:
            del c2[nkey(keys, mvs)]
        del s.model[name][ck]
        s.streams[name].pop(ck, None)
        s.m.raises(KeyError, 'update-stale', coll.UpdateEntity, e, ctx=s.ctx())
        s.m.check(nkey(keys, mvs) not in coll, 'stale-stored', name, ck, s.ctx())
        s.m.count('stale')


def op_assign(s, r, name):
    """Assignment never inserts"""
    ck, mvs = s.pick(r, name)
    if ck is None:
        return
    s.log.append('assign %s %s' % (name, ck))
    keys = SETS[name][0]
    k = nkey(keys, mvs)
    with s.open(name) as coll:
        e, row = s.new(r, coll, name, mvs)
        if ck in s.model[name]:
            coll[k] = e
        else:
            def st():
                coll[k] = e
            s.m.raises(KeyError, 'assign-new', st, ctx=s.ctx())
        ck2, mvs2 = s.pick(r, name)
        if ck2 is not None and ck2 != ck:
            def st():
                coll[nkey(keys, mvs2)] = e
            s.m.raises(ValueError, 'assign-wrong-key', st, ctx=s.ctx())
        def st():
            coll[k] = row
        s.m.raises(TypeError, 'assign-wrong-type', st, ctx=s.ctx())
        s.m.count('assigns')


def op_copy(s, r, name):
    ck, mvs = s.pick(r, name, True)
    if ck is None or ck not in s.model[name]:
        return
    s.log.append('copy %s %s' % (name, ck))
    keys, props, stream = SETS[name]
    with s.open(name) as coll:
        e = coll.CopyEntity(coll[nkey(keys, mvs)])
        s.m.check(not e.exists and all(e[n].value is None for n, t in keys), 'copy-key', name, ck, s.ctx())
        x = differs(e, props, s.model[name][ck][1])
        s.m.check(x is None, 'copy-value', name, ck, x, s.ctx())
        ck2, mvs2 = s.pick(r, name, False)
        if ck2 is not None and ck2 not in s.model[name]:
            e.SetKey(nkey(keys, mvs2))
            coll.InsertEntity(e)
            s.model[name][ck2] = (mvs2, dict(s.model[name][ck][1]))
            s.m.count('copies')


OPS = [op_insert] * 6 + [op_autokey] * 2 + [op_update] * 4 + [op_scribble, op_delete, op_delete, op_delete, op_stale, op_assign, op_copy]


# ------------------------------------------------------------ queries
def atoms(r, name):
    """(text, function of key values and row) for one condition"""
    k = r.randrange(8)
    op, f = r.choice([('eq', lambda a, b: a == b), ('ne', lambda a, b: a != b), ('lt', lambda a, b: a is not None and b is not None and a < b),
                      ('le', lambda a, b: a is not None and b is not None and a <= b), ('gt', lambda a, b: a is not None and b is not None and a > b),
                      ('ge', lambda a, b: a is not None and b is not None and a >= b)])
    c = r.randrange(-1, 7)
    if k < 3:
        return u'A %s %d' % (op, c), lambda kv, row: f(row['A'], c)
    if k == 3:
        op, f = r.choice([('eq', lambda a: a is None), ('ne', lambda a: a is not None)])
        n = r.choice(['A', 'N'])
        return u'%s %s null' % (n, op), lambda kv, row: f(row[n])
    if k == 4:
        v = r.choice([u'', u'a', u'b', u"it's", u'\xe9'])
        return u"N eq '%s'" % v.replace(u"'", u"''"), lambda kv, row: row['N'] == v
    if k == 5:
        # an expression
        return u'A add %d %s %d' % (c, op, c + 2), lambda kv, row: f(None if row['A'] is None else row['A'] + c, c + 2)
    if k == 6:
        keys = SETS[name][0]
        n, t = r.choice(keys)
        i = [x for x, y in keys].index(n)
        if t in ('Int32', 'Int64'):
            return u'%s %s %d' % (n, op, c), lambda kv, row: f(kv[i], c)
        if t == 'String':
            return u"%s eq 'a'" % n, lambda kv, row: kv[i] == u'a'
    if name in ('Items', 'Pairs'):
        return u'C/X %s %d' % (op, c), lambda kv, row: f(row['C']['X'], c)
    return u'%d %s A' % (c, op), lambda kv, row: f(c, row['A'])


def condition(r, name, depth=2):
    if depth == 0 or r.random() < 0.4:
        return atoms(r, name)
    k = r.randrange(3)
    a, fa = condition(r, name, depth - 1)
    if k == 0:
        return u'not (%s)' % a, lambda kv, row: not fa(kv, row)
    b, fb = condition(r, name, depth - 1)
    if k == 1:
        return u'(%s) and (%s)' % (a, b), lambda kv, row: fa(kv, row) and fb(kv, row)
    return u'(%s) or (%s)' % (a, b), lambda kv, row: fa(kv, row) or fb(kv, row)


def ordering(r, name, nullable=True):
    """[(text, function, direction)]"""
    keys = SETS[name][0]
    opts = [(u'A', lambda kv, row: row['A'])]
    if nullable:
        opts.append((u'A mul -1', lambda kv, row: None if row['A'] is None else -row['A']))
        opts.append((u'N', lambda kv, row: row['N']))
    for i, (n, t) in enumerate(keys):
        if t in ('Int32', 'Int64', 'String'):
            opts.append((n, lambda kv, row, i=i: kv[i]))
    out = []
    for text, f in r.sample(opts, r.randint(1, min(3, len(opts)))):
        d = r.choice([1, -1])
        out.append((text + (u' desc' if d < 0 else r.choice([u'', u' asc'])), f, d))
    return out


def inorder(a, b, order):
    """a may come before b (each (key values, row))"""
    for text, f, d in order:
        x, y = f(*a), f(*b)
        if x != y:
            less = x is None or (y is not None and x < y)
            return less if d > 0 else not less
    return True


def query(s, r, name, paging=True, forced=True):
    """A query with random options gives what it should"""
    m = s.m
    keys, props, stream = SETS[name]
    model = s.model[name]
    with s.open(name) as coll:
        desc = []
        want = dict(model)
        if r.random() < 0.6:
            text, f = condition(r, name)
            desc.append('filter ' + text)
            coll.Filter(core.CommonExpression.FromString(text))
            want = dict((ck, v) for ck, v in model.items() if f(*v))
        order = []
        if r.random() < 0.6:
            order = ordering(r, name)
            desc.append('orderby ' + u','.join(x[0] for x in order))
            coll.OrderBy(core.CommonExpression.OrderByFromString(u','.join(x[0] for x in order)))
        select = None
        if r.random() < 0.4:
            select = dict((n, None) for n, t in r.sample(props + keys, r.randint(1, len(props))))
            if r.random() < 0.2:
                select['*'] = None
            coll.Expand(None, select)
            desc.append('select ' + ','.join(sorted(select)))
        s.log.append('query %s %s' % (name, '; '.join(desc).encode('ascii', 'replace')))
        m.check(len(coll) == len(want), 'query-length', len(coll), len(want), name, s.ctx())
        got = coll.values()
        cks = [pkey(keys, e.Key()) for e in got]
        if not m.check(sorted(cks) == sorted(want), 'query-result', sorted(cks), sorted(want), name, s.ctx()):
            return
        for e, ck in zip(got, cks):
            s.checkentity(name, e, ck, 'query', select)
        for a, b in zip(cks, cks[1:]):
            m.check(inorder(model[a], model[b], order), 'query-order', a, b, name, s.ctx())
        for ck in list(model)[:6]:
            k = nkey(keys, model[ck][0])
            m.check((k in coll) == (ck in want), 'query-contains', repr(k), name, s.ctx())
            if ck in want:
                s.checkentity(name, coll[k], ck, 'query-lookup', select)
        m.check(sorted(pkey(keys, k) for k in coll.iterkeys()) == sorted(want) and
                sorted(pkey(keys, k) for k, e in coll.iteritems()) == sorted(want), 'query-iterators', name, s.ctx())
        m.count('queries')
        if select and order:
            m.count('select_order')
        if 'filter' in ' '.join(desc):
            m.count('filtered')
        if not paging:
            return
        # the whole collection in paging order
        coll.SetPage(None)
        ref = [pkey(keys, e.Key()) for e in coll.iterpage()]
        if not m.check(sorted(ref) == sorted(want) and coll.NextSkipToken() is None, 'page-all', ref, sorted(want), name, s.ctx()):
            return
        for a, b in zip(ref, ref[1:]):
            m.check(inorder(model[a], model[b], order), 'page-order', a, b, name, s.ctx())
        top = r.choice([None, None, 1, 2, 3, 5, 20])
        skip = r.choice([0, 0, 1, 2, 7, 30])
        topmax = r.choice([None, 1, 2, 3, 5, 20]) if forced and r.random() < 0.6 else None
        if topmax:
            coll.TopMax(topmax)
        coll.SetPage(top, skip)
        size = min(x for x in (top, topmax, 10 ** 9) if x is not None)
        s.log.append('pages top=%s skip=%s topmax=%s of %d' % (top, skip, topmax, len(ref)))
        pos, pages = skip, 0
        isforced = topmax is not None and (top is None or top > topmax)
        while True:
            page = []
            for e in coll.iterpage(True):
                ck = pkey(keys, e.Key())
                page.append(ck)
                s.checkentity(name, e, ck, 'page', select)
            wantpage = ref[pos:pos + size]
            if not m.check(page == wantpage, 'page', page, wantpage, pages, name, s.ctx()):
                return
            more = pos + size < len(ref)
            token = coll.NextSkipToken()
            m.check((token is not None) == (isforced and more), 'skiptoken', token, pages, name, s.ctx())
            if token is not None:
                # the token works on another collection
                with s.open(name) as c2:
                    c2.Filter(coll.filter)
                    c2.OrderBy(coll.orderby)
                    c2.TopMax(topmax)
                    extra = r.choice([0, 0, 1])
                    c2.SetPage(top, extra or r.choice([0, None]), token)
                    p2 = [pkey(keys, e.Key()) for e in c2.iterpage()]
                    m.check(p2 == ref[pos + size + extra:pos + size * 2 + extra], 'token-page', p2, token, name, s.ctx())
                    m.count('tokens')
            pos += size
            pages += 1
            m.count('pages')
            if not wantpage or pages > 60:
                break
            if not more:
                page = list(coll.iterpage(True))
                m.check(page == [] and coll.NextSkipToken() is None, 'page-overrun', page, name, s.ctx())
                break
        if pages > 1:
            m.count('multipage')
        coll.SetPage(0)
        m.check(list(coll.iterpage()) == [] and coll.NextSkipToken() is None, 'page-top0', name, s.ctx())
