"""O07 the OData server protocol"""

import json
import re
import StringIO
from lib import Family, short_tb
import odm
import odw
import odh
import o01
from odw import SETS, Store, COMPLEX
from odh import Bad
import pyslet.odata2.csdl as edm
import pyslet.odata2.core as core
import pyslet.odata2.metadata as metadata
import pyslet.odata2.server as server
import pyslet.rfc2616 as http

PROPERTY = 'O07'
ROOT = 'http://host/svc'
BASE = ROOT + '/'

EXTRASET = (u'<EntitySet Name="Owners" EntityType="V.OwnerType"/><EntitySet Name="Things" EntityType="V.ThingType"/>'
            u'<AssociationSet Name="OT" Association="V.OT"><End Role="O" EntitySet="Owners"/><End Role="T" EntitySet="Things"/></AssociationSet>'
            u'<AssociationSet Name="PT" Association="V.PT"><End Role="O" EntitySet="Owners"/><End Role="T" EntitySet="Things"/></AssociationSet>')
EXTRA = (u'<EntityType Name="OwnerType"><Key><PropertyRef Name="Name"/></Key><Property Name="Name" Type="Edm.String" Nullable="false"/>'
         u'<Property Name="A" Type="Edm.Int32" Nullable="true"/>'
         u'<NavigationProperty Name="Things" Relationship="V.OT" FromRole="O" ToRole="T"/>'
         u'<NavigationProperty Name="Prime" Relationship="V.PT" FromRole="O" ToRole="T"/></EntityType>'
         u'<EntityType Name="ThingType"><Key><PropertyRef Name="ID"/></Key><Property Name="ID" Type="Edm.Int32" Nullable="false"/>'
         u'<Property Name="A" Type="Edm.Int32" Nullable="true"/>'
         u'<NavigationProperty Name="Owner" Relationship="V.OT" FromRole="T" ToRole="O"/></EntityType>'
         u'<Association Name="OT"><End Role="O" Type="V.OwnerType" Multiplicity="0..1"/><End Role="T" Type="V.ThingType" Multiplicity="*"/></Association>'
         u'<Association Name="PT"><End Role="O" Type="V.OwnerType" Multiplicity="0..1"/><End Role="T" Type="V.ThingType" Multiplicity="0..1"/></Association>')
LINKED = {'Owners': ([('Name', 'String')], [('A', 'Int32')]), 'Things': ([('ID', 'Int32')], [('A', 'Int32')])}
_state = []


def world(root=BASE):
    if not _state:
        doc = metadata.Document()
        doc.Read(StringIO.StringIO(odm.edmxdoc(odw.schema(None, {}, EXTRA, EXTRASET)).encode('utf-8')))
        _state.append(doc)
    doc = _state[0]
    odm.memcontainer(doc, 'V.C')
    s = server.Server(root)
    s.SetModel(doc)
    return doc, s


class Gen(odw.Gen):
    """Values that every format can carry"""

    def simple(self, r, t):
        while True:
            x = odw.Gen.simple(self, r, t)
            if t == 'String' and any(ord(c) < 32 and c not in u'\t\n\r' or 0xD800 <= ord(c) < 0xE000 or ord(c) >= 0xFFFE for c in x):
                continue
            return x


class W(Store):

    def __init__(self, m, r, names):
        self.doc, self.server = world()
        opener = lambda name: self.doc.root.DataServices['V.C.' + name].OpenCollection()
        Store.__init__(self, m, opener, Gen(), names, small=True)
        self.owners, self.things, self.own, self.prime = {}, {}, {}, {}
        self.r = r

    def req(self, method, url, headers=(), body=None):
        """A response that keeps to HTTP, never an internal error"""
        self.m.count('requests')
        self.log.append('%s %s %s %s' % (method, url.replace(ROOT, ''), [h for h in headers if h[1]], repr((body or '')[:400])[1:-1]))
        try:
            x = odh.call(self.server, method, url, headers, body, '/svc' if self.r.random() < 0.3 else '')
        except Bad as e:
            self.m.violate('response', '%s %s' % (e, self.ctx()))
            return None
        except Exception as e:
            self.m.violate('raised', '%s: %s %s %s' % (type(e).__name__, e, short_tb()[-500:], self.ctx()))
            return None
        if not self.m.check(x.status < 500, 'internal-error' + ':'.join(re.findall(r'exceptions\.\w+|[A-Z]\w+Exception', x.body)), repr(x), self.ctx()):
            return None
        if x.status >= 400:
            self.m.count('refusals')
            if method == 'HEAD':
                self.m.check(x.body == '', 'head-body', repr(x), self.ctx())
                return x
            try:
                code, msg = odh.error(x)
                self.m.check(bool(code), 'error-code', repr(x), self.ctx())
            except (Bad, KeyError, TypeError) as e:
                self.m.violate('error-document', '%s %r %s' % (e, x, self.ctx()))
        else:
            v = x.header('DataServiceVersion')
            self.m.check(v is not None and re.match(r'[12]\.0;', v), 'version-header', repr(x), self.ctx())
        return x

    def ctx(self):
        return '; '.join(self.log[-4:])

    def dump(self):
        """Everything stored"""
        out = {}
        for n in self.names + ['Owners', 'Things']:
            with self.doc.root.DataServices['V.C.' + n].OpenCollection() as c:
                for e in c.itervalues():
                    k = (n, repr(e.Key()))
                    out[k] = dict(flat(e))
                    for nav, dv in e.NavigationItems():
                        with dv.OpenCollection() as nc:
                            out[k + (nav,)] = sorted(repr(x) for x in nc)
                    if e.typeDef.HasStream():
                        out[k + ('$value',)] = (str(e.GetStreamType()), ''.join(e.GetStreamGenerator()))
        return out

    def fill(self, n):
        r = self.r
        for name in self.names:
            with self.open(name) as coll:
                for i in range(n):
                    ck, mvs = self.pick(r, name, False)
                    if ck is None or ck in self.model[name]:
                        continue
                    e, row = self.new(r, coll, name, mvs)
                    coll.InsertEntity(e)
                    self.model[name][ck] = (mvs, row)
                    if SETS[name][2]:
                        e.SetStreamFromGenerator(http.MediaType.FromString('text/plain'), iter(['x%d' % i]))
                        self.streams[name][ck] = ('text/plain', 'x%d' % i)
        with self.open('Things') as tc:
            for k in r.sample(range(12), r.randint(0, 6)):
                e = tc.NewEntity()
                e.SetKey(k)
                e['A'].SetFromValue(k)
                tc.InsertEntity(e)
                self.things[k] = k
            with self.open('Owners') as oc:
                for k in r.sample([u'a', u'b c', u"o'x", u'\xe9', u'a/b', u'?#', u''], r.randint(1, 4)):
                    e = oc.NewEntity()
                    e.SetKey(k)
                    oc.InsertEntity(e)
                    self.owners[k] = None
                    for t in self.things:
                        if t not in self.own and r.random() < 0.4:
                            with e['Things'].OpenCollection() as nc:
                                nc[t] = tc[t]
                            self.own[t] = k
                    free = [t for t in self.things if t not in self.prime.values()]
                    if free and r.random() < 0.6:
                        t = r.choice(free)
                        with e['Prime'].OpenCollection() as nc:
                            nc[t] = tc[t]
                        self.prime[k] = t

    def check(self):
        """The store agrees with the model"""
        for n in self.names:
            self.checkall(n)
            if SETS[n][2]:
                with self.open(n) as coll:
                    for ck, (mvs, row) in self.model[n].items():
                        e = coll[odw.nkey(SETS[n][0], mvs)]
                        t, data = self.streams[n].get(ck, ('application/octet-stream', ''))
                        self.m.check(''.join(e.GetStreamGenerator()) == data and e.GetStreamType() == http.MediaType.FromString(t),
                                     'stream', str(e.GetStreamType()), t, self.ctx())
        with self.open('Things') as tc:
            got = dict((k, e['A'].value) for k, e in tc.iteritems())
            self.m.check(got == self.things, 'things', got, self.things, self.ctx())
            own = {}
            for k, e in tc.iteritems():
                o = e['Owner'].GetEntity()
                if o is not None:
                    own[k] = o.Key()
            self.m.check(own == self.own, 'owner-links', own, self.own, self.ctx())
        with self.open('Owners') as oc:
            got = dict((k, e['A'].value) for k, e in oc.iteritems())
            self.m.check(got == self.owners, 'owners', got, self.owners, self.ctx())
            for k, e in oc.iteritems():
                with e['Things'].OpenCollection() as nc:
                    ks = sorted(nc)
                self.m.check(ks == sorted(t for t in self.own if self.own[t] == k), 'things-links', k, ks, self.own, self.ctx())
                p = e['Prime'].GetEntity()
                self.m.check((None if p is None else p.Key()) == self.prime.get(k), 'prime-links', k, p, self.prime, self.ctx())
        self.m.count('states')


def flat(v, prefix=''):
    items = v.DataItems() if isinstance(v, edm.Entity) else v.iteritems()
    for k, x in items:
        if isinstance(x, edm.Complex):
            for y in flat(x, prefix + k + '/'):
                yield y
        else:
            yield prefix + k, repr(x.value if not hasattr(x.value, 'date') else unicode(x.value))


def ask(r, fmt=None, entry=True):
    """(headers, query part, version) asking for a format"""
    fmt = fmt or r.choice(['json', 'atom'])
    version = r.choice([2, 2, 1])
    hs = []
    if version == 1:
        hs.append(r.choice([('MaxDataServiceVersion', '1.0'), ('DataServiceVersion', '1.0'), ('MaxDataServiceVersion', '1.0; client')]))
    elif r.random() < 0.3:
        hs.append(r.choice([('DataServiceVersion', '2.0'), ('MaxDataServiceVersion', '3.0'), ('DataServiceVersion', '1.0')]))
        if hs[0] == ('DataServiceVersion', '1.0'):
            hs.append(('MaxDataServiceVersion', '2.0'))
    q = None
    if fmt == 'json':
        if r.random() < 0.5:
            q = '$format=json'
            if r.random() < 0.3:
                hs.append(('Accept', 'application/atom+xml'))
        else:
            hs.append(('Accept', r.choice(['application/json', 'application/json, */*;q=0.1', 'image/png, application/json;q=0.5', 'application/json;q=0.9, application/xml;q=0.1'])))
    else:
        hs.append(('Accept', r.choice([None, None, '*/*', 'application/atom+xml' if entry else 'application/xml', 'text/*, application/xml', 'application/xml, application/json;q=0.5', 'text/xml'])))
        if r.random() < 0.2:
            q = '$format=xml'
    return hs, q, version


def url(path, *qs):
    qs = [q for q in qs if q]
    return ROOT + path + ('?' + '&'.join(qs) if qs else '')


def decoded(w, mech, f, *args):
    try:
        return f(*args)
    except (Bad, KeyError, TypeError, ValueError, AttributeError) as e:
        w.m.violate(mech, '%s: %s %s %s' % (type(e).__name__, e, args[0], w.ctx()))
        return None


def checkentry(w, name, e, ck, names=None, mech='entry'):
    keys, props, stream = SETS[name]
    mvs, row = w.model[name][ck]
    full = dict(zip([n for n, t in keys], mvs))
    full.update(row)
    x = decoded(w, mech, odh.difference, e.form, keys + props, e.props, full, names)
    w.m.check(x is None, mech + '-value', x, ck, w.ctx())
    w.m.check(e.type == 'V.%sType' % name, mech + '-type', e.type, w.ctx())
    if names is None:
        w.m.check(sorted(e.props) == sorted(full), mech + '-properties', sorted(e.props), w.ctx())
    else:
        w.m.check(set(names) <= set(e.props) <= set(names) | set(n for n, t in keys), mech + '-selected', sorted(e.props), names, w.ctx())
    if stream:
        t, data = w.streams[name].get(ck, ('application/octet-stream', ''))
        w.m.check(e.media == e.uri + '/$value' and e.src == e.media and e.ctype == t, mech + '-media', e.media, e.src, e.ctype, w.ctx())
    w.m.check(e.uri is not None and e.uri.startswith(BASE + name + '('), mech + '-uri', e.uri, w.ctx())


def keyof(w, name, e):
    keys = SETS[name][0]
    try:
        mvs = []
        for n, t in keys:
            v = e.props[n]
            if e.form == 'json' and t in ('DateTime', 'DateTimeOffset'):
                # ticks only hold milliseconds
                c = [ck for ck in w.model[name] if odh.samejson(t, v, w.model[name][ck][0][0])]
                mvs.append(w.model[name][c[0]][0][0])
            elif e.form == 'json':
                mvs.append(v if isinstance(v, (int, long)) else odh.fromtext(t, v))
            else:
                mvs.append(odh.fromtext(t, v))
        return odw.ckey(keys, mvs)
    except (Bad, KeyError, TypeError, IndexError) as x:
        w.m.violate('entry-key', '%s %s %s' % (x, e.props, w.ctx()))
        return None


def path(w, name, ck):
    return '/%s%s' % (name, odh.keypath(SETS[name][0], w.model[name][ck][0]))


# ------------------------------------------------------------ reads
def r_entity(w, r, name):
    if not w.model[name]:
        return
    ck = r.choice(sorted(w.model[name]))
    keys, props, stream = SETS[name]
    hs, q, version = ask(r)
    names, sel = None, None
    if r.random() < 0.3:
        names = r.sample([n for n, t in props + keys], r.randint(1, len(props)))
        sel = '$select=' + ','.join(names)
    p = path(w, name, ck)
    x = w.req('GET', url(p, q, sel), hs)
    if x is None or not w.m.check(x.status == 200, 'get-entity', repr(x), w.ctx()):
        return
    e = decoded(w, 'entity-body', odh.entry, x, BASE, version)
    if e is None:
        return
    checkentry(w, name, e, ck, names, 'entity')
    w.m.check(e.form == ('json' if 'json' in (q or '') + str(dict(hs).get('Accept', '')) and q != '$format=xml' and 'json;q=0.5' not in str(dict(hs).get('Accept', '')).replace('image/png, application/json;q=0.5', 'json') else 'atom'),
              'negotiated', e.form, w.ctx())
    w.m.count('entities_' + e.form)
    # the address it gives is its own
    y = w.req('GET', e.uri, [('Accept', 'application/atom+xml')])
    if y is not None and w.m.check(y.status == 200, 'edit-link', repr(y), w.ctx()):
        e2 = decoded(w, 'edit-link-body', odh.entry, y, BASE)
        if e2 is not None:
            checkentry(w, name, e2, ck, None, 'edit-link')
    h = w.req('HEAD', url(p, q, sel), hs)
    if h is not None:
        w.m.check(h.status == 200 and h.body == '' and h.headers == x.headers, 'head', repr(h), repr(x), w.ctx())


def r_property(w, r, name):
    if not w.model[name]:
        return
    ck = r.choice(sorted(w.model[name]))
    keys, props, stream = SETS[name]
    mvs, row = w.model[name][ck]
    n, t = r.choice(props + keys)
    mv = dict(zip([k for k, kt in keys], mvs)).get(n, row.get(n))
    p = path(w, name, ck) + '/' + n
    while t in COMPLEX and r.random() < 0.6:
        n, t = r.choice(COMPLEX[t])
        mv = mv[n]
        p += '/' + n
    hs, q, version = ask(r, None, False)
    if r.random() < 0.4 and t not in COMPLEX:
        x = w.req('GET', ROOT + p + '/$value', [])
        if x is None:
            return
        if mv is None:
            w.m.check(x.status == 404, 'null-value', repr(x), w.ctx())
        elif w.m.check(x.status == 200, 'get-value', repr(x), w.ctx()):
            if t == 'Binary':
                w.m.check(x.body == mv, 'raw-binary', repr(x.body), repr(mv), w.ctx())
            else:
                got = decoded(w, 'raw-text', odh.fromtext, t, x.body.decode('utf-8'))
                w.m.check(o01.same(t, got, mv), 'raw-value', repr(x.body), repr(mv), w.ctx())
        w.m.count('raw')
        return
    x = w.req('GET', url(p, q), hs)
    if x is None or not w.m.check(x.status == 200, 'get-property', repr(x), w.ctx()):
        return
    f = decoded(w, 'property-form', odh.form, x)
    if f == 'json':
        def dec(x):
            j = odh.loads(x.body)['d']
            if version == 2:
                j = j['results']
            if list(j) != [n]:
                raise Bad('not the property: %s' % j)
            return odh.difference('json', [(n, t)], j, {n: mv})
    else:
        def dec(x):
            node = odh.dom(x.body)
            holder = odh.Node.__new__(odh.Node)
            holder.children = [node]
            return odh.difference('atom', [(n, t)], odh.xmlprops(holder), {n: mv})
    d = decoded(w, 'property-body', dec, x)
    w.m.check(d is None, 'property-value', d, x.body, w.ctx())
    w.m.count('properties')


def r_media(w, r, name):
    if not w.model[name] or not SETS[name][2]:
        return
    ck = r.choice(sorted(w.model[name]))
    t, data = w.streams[name].get(ck, ('application/octet-stream', ''))
    x = w.req('GET', ROOT + path(w, name, ck) + '/$value', [('Accept', r.choice([None, '*/*', t]))])
    if x is not None and w.m.check(x.status == 200, 'get-media', repr(x), w.ctx()):
        w.m.check(x.body == data and x.header('Content-Type') == t and x.header('Content-Length') == str(len(data)), 'media', repr(x), t, repr(data), w.ctx())
        w.m.count('media')


def r_feed(w, r, name):
    keys, props, stream = SETS[name]
    hs, q, version = ask(r)
    want = w.model[name]
    qs = []
    if r.random() < 0.5:
        text, f = odw.condition(r, name)
        qs.append('$filter=' + odh.escurl(text))
        want = dict((ck, v) for ck, v in want.items() if f(*v))
    order = []
    if r.random() < 0.5:
        order = odw.ordering(r, name)
        qs.append('$orderby=' + odh.escurl(u','.join(o[0] for o in order)))
    names = None
    if r.random() < 0.3:
        # (keys are needed here to recognise entities)
        names = sorted(set(r.sample([n for n, t in props], r.randint(1, len(props))) + [n for n, t in keys]))
        qs.append('$select=' + ','.join(names))
    count = r.random() < 0.4
    if count:
        qs.append('$inlinecount=allpages')
    w.server.topmax = r.choice([2, 3, 5, 100])

    def pages(extra, hs, q, version):
        out, u, n = [], url('/' + name, q, *(qs + extra)), 0
        while u:
            x = w.req('GET', u, hs)
            if x is None or not w.m.check(x.status == 200, 'get-feed', repr(x), w.ctx()):
                return None
            got = decoded(w, 'feed-body', odh.feed, x, BASE, version)
            if got is None:
                return None
            es, u, c = got
            if version == 2 or odh.form(x) != 'json':
                w.m.check(len(es) <= w.server.topmax, 'page-size', len(es), w.server.topmax, w.ctx())
            if n == 0 and not (odh.form(x) == 'json' and version == 1):
                w.m.check(c == (len(want) if count else None), 'inline-count', c, len(want), count, w.ctx())
            for e in es:
                ck = keyof(w, name, e)
                if ck is None or not w.m.check(ck in want, 'feed-extra', ck, w.ctx()):
                    return None
                checkentry(w, name, e, ck, names, 'feed')
                out.append(ck)
            n += 1
            if u:
                w.m.count('next_links')
                w.m.check(bool(es), 'empty-page', w.ctx())
            if n > 100:
                w.m.violate('endless', w.ctx())
                return None
        w.m.count('feeds')
        return out
    if version == 1 and 'json' in repr((q, hs)):
        # version 1 of JSON has no next link
        w.server.topmax = 100
    ref = pages([], hs, q, version)
    if ref is None:
        return
    w.m.check(sorted(ref) == sorted(want), 'feed-content', sorted(ref), sorted(want), w.ctx())
    for a, b in zip(ref, ref[1:]):
        w.m.check(odw.inorder(w.model[name][a], w.model[name][b], order), 'feed-order', a, b, w.ctx())
    top, skip = r.choice([None, 0, 1, 2, 4, 20]), r.choice([None, 0, 1, 3, 20])
    if top is not None or skip is not None:
        hs, q, version = ask(r)
        if version == 1 and 'json' in repr((q, hs)):
            w.server.topmax = 100
        part = pages(([] if top is None else ['$top=%d' % top]) + ([] if skip is None else ['$skip=%d' % skip]), hs, q, version)
        if part is not None:
            k = skip or 0
            w.m.check(part == ref[k:] if top is None else part == ref[k:k + top], 'feed-slice', top, skip, part, ref, w.ctx())
            w.m.count('slices')
    w.server.topmax = 100
    fq = [x for x in qs if x.startswith('$filter')]
    x = w.req('GET', url('/%s/$count' % name, *fq), [])
    if x is not None:
        w.m.check(x.status == 200 and x.body == str(len(want)) and x.mtype() == 'text/plain', 'count', repr(x), len(want), w.ctx())


def r_links(w, r):
    k = r.choice(sorted(w.owners))
    p = '/Owners(%s)' % odh.escurl(odh.uriliteral('String', k))
    hs, q, version = ask(r)
    mine = sorted(t for t in w.own if w.own[t] == k)
    what = r.randrange(5)
    if what < 2:
        hs, q, version = ask(r, None, False)
    if what == 0:
        # addresses of the linked entities
        def dec(x):
            if odh.form(x) == 'json':
                j = odh.loads(x.body)['d']
                if version == 1:
                    return [i['uri'] for i in j], False
                return [i['uri'] for i in j['results']], j.get('__count')
            n = odh.dom(x.body)
            if (n.ns, n.name) != (odh.D, 'links'):
                raise Bad('not links')
            cs = n.all(odh.M, 'count')
            if len(cs) > 1:
                raise Bad('several counts')
            return [i.text for i in n.all(odh.D, 'uri')], int(cs[0].text) if cs else None

        top = r.choice([None, None, 1, 2])
        skip, got = 0, []
        while True:
            opts = []
            count = r.choice(['', 'none', 'allpages', 'allpages'])
            if count:
                opts.append('$inlinecount=' + count)
            if top is not None:
                opts.append('$top=%d' % top)
                if skip or r.random() < 0.5:
                    opts.append('$skip=%d' % skip)
            r.shuffle(opts)
            x = w.req('GET', url(p + '/$links/Things', q, *opts), hs)
            if x is None or not w.m.check(x.status == 200, 'get-links', repr(x), w.ctx()):
                return
            us = decoded(w, 'links-body', dec, x)
            if us is None:
                return
            us, c = us
            if c is not False:
                w.m.check(c == (len(mine) if count == 'allpages' else None), 'links-count', c, len(mine), opts, w.ctx())
                w.m.count('links_counts')
            got += us
            skip += len(us)
            if top is None:
                break
            w.m.check(len(us) <= top, 'links-top', us, top, w.ctx())
            if not us:
                break
        w.m.check(sorted(got) == sorted(BASE + 'Things(%d)' % t for t in mine), 'links', got, mine, w.ctx())
    elif what == 1:
        x = w.req('GET', url(p + '/$links/Prime', q), hs)
        if x is None:
            return
        t = w.prime.get(k)
        if t is None:
            w.m.check(x.status == 404, 'no-link', repr(x), w.ctx())
            return
        if not w.m.check(x.status == 200, 'get-link', repr(x), w.ctx()):
            return
        u = decoded(w, 'link-body', lambda x: odh.loads(x.body)['d']['uri'] if odh.form(x) == 'json' else odh.dom(x.body).text, x)
        w.m.check(u == BASE + 'Things(%d)' % t, 'link', u, t, w.ctx())
    elif what == 2:
        x = w.req('GET', url(p + '/Prime', q), hs)
        if x is None:
            return
        t = w.prime.get(k)
        if t is None:
            w.m.check(x.status == 404, 'no-entity', repr(x), w.ctx())
        elif w.m.check(x.status == 200, 'get-linked', repr(x), w.ctx()):
            e = decoded(w, 'linked-body', odh.entry, x, BASE, version)
            w.m.check(e is not None and str(e.props['ID']) == str(t), 'linked', e and e.props, t, w.ctx())
    elif what == 3:
        x = w.req('GET', url(p + '/Things', q), hs)
        if x is None or not w.m.check(x.status == 200, 'get-linked-feed', repr(x), w.ctx()):
            return
        es = decoded(w, 'linked-feed-body', odh.feed, x, BASE, version)
        if es is not None:
            w.m.check(sorted(str(e.props['ID']) for e in es[0]) == sorted(str(t) for t in mine), 'linked-feed', [e.props for e in es[0]], mine, w.ctx())
        x = w.req('GET', ROOT + p + '/Things/$count')
        if x is not None:
            w.m.check(x.status == 200 and x.body == str(len(mine)), 'linked-count', repr(x), mine, w.ctx())
        t = r.choice(sorted(w.things) or [0])
        x = w.req('GET', url(p + '/Things(%d)' % t, q), hs)
        if x is not None:
            w.m.check(x.status == (200 if t in mine else 404), 'linked-key', repr(x), mine, w.ctx())
    else:
        x = w.req('GET', url(p, q, '$expand=' + r.choice(['Things,Prime', 'Prime,Things/Owner', 'Things/Owner,Prime'])), hs)
        if x is None or not w.m.check(x.status == 200, 'get-expanded', repr(x), w.ctx()):
            return
        e = decoded(w, 'expanded-body', odh.entry, x, BASE, version)
        if e is None:
            return
        es = e.links.get('Things', (None,))
        p1 = e.links.get('Prime', (None,))
        if e.form == 'json' and 'Prime' in e.props and e.props['Prime'] is None:
            p1 = ('entry', None)
        w.m.check(es[0] == 'feed' and sorted(str(y.props['ID']) for y in es[1]) == sorted(str(t) for t in mine), 'expanded-feed', es, mine, w.ctx())
        w.m.check(p1[0] == 'entry' and (None if p1[1] is None else str(p1[1].props['ID'])) == (str(w.prime[k]) if k in w.prime else None),
                  'expanded-entry', p1, w.prime, w.ctx())
    w.m.count('links_read')


def r_missing(w, r):
    name = r.choice(w.names)
    ck, mvs = w.pick(r, name, False)
    bad = ['/Nosuch', '/Nosuch(1)', '/%s/Nosuch' % name, "/Owners('zz')", "/Owners('zz')/Things", "/Owners('zz')/A", '/C.%sx' % name, '/V']
    if ck is not None and ck not in w.model[name]:
        p = '/%s%s' % (name, odh.keypath(SETS[name][0], mvs))
        bad += [p, p + '/A', p + '/A/$value', p + '/N'] * 2
    if w.model[name]:
        p = path(w, name, r.choice(sorted(w.model[name])))
        bad += [p + '/Nosuch', p + '/A/Nosuch', p + '/Nosuch/$value', p + '/A/$count', '/%s/A' % name, p + '/$links/Nosuch', p + '/$links/A']
    u = ROOT + r.choice(bad)
    x = w.req(r.choice(['GET', 'GET', 'DELETE', 'PUT', 'POST', 'HEAD']), u, [], None)
    if x is not None:
        w.m.check(400 <= x.status < 500, 'missing-status', repr(x), w.ctx())
        if '/Nosuch' == u[len(ROOT):] or "'zz')" == u[-4:]:
            w.m.check(x.status in (404, 403, 405, 400) if w.log[-1][:3] != 'GET' else x.status == 404, 'not-found', repr(x), w.ctx())
        w.m.count('missing')


READS = [r_entity] * 3 + [r_property] * 3 + [r_feed] * 3 + [r_media]


def f_reads(m, r):
    w = W(m, r, r.sample(sorted(SETS), 2))
    w.fill(r.choice([1, 3, 6, 9]))
    before = w.dump()
    for i in range(6):
        k = r.random()
        if k < 0.25:
            r_links(w, r)
        elif k < 0.35:
            r_missing(w, r)
        else:
            r.choice(READS)(w, r, r.choice(w.names))
    m.check(w.dump() == before, 'read-changed', w.ctx())
    w.check()
    m.key(tuple(w.log))
    m.sample(w.ctx())


# ------------------------------------------------------------ writes
def body(w, r, name, row, mvs=None, links=()):
    """(headers, body, the row that results)"""
    keys, props, stream = SETS[name]
    full = dict(row)
    if mvs is not None:
        full.update(zip([n for n, t in keys], mvs))
    if r.random() < 0.5:
        hs = [('Content-Type', r.choice(['application/json', 'application/json; charset=utf-8', None]))]
        return hs, odh.entryjson(keys + props, full), dict((n, odh.msprecision(t, row[n])) for n, t in props if n in row)
    hs = [('Content-Type', r.choice(['application/atom+xml', 'application/atom+xml; type=entry', 'application/atom+xml; charset=utf-8', 'application/xml', 'text/xml; charset=utf-8', None]))]
    return hs, odh.entryxml(keys + props, full, (), stream), row


def w_create(w, r, name):
    keys, props, stream = SETS[name]
    if stream:
        return w_media(w, r, name)
    ck, mvs = w.pick(r, name)
    hs, data, row = body(w, r, name, w.gen.row(r, name, True), mvs)
    if 'json' not in str(hs) and data[0] == '{' or data[0] == '{':
        mvs = tuple(odh.msprecision(t, mv) for (n, t), mv in zip(keys, mvs))
        ck = odw.ckey(keys, mvs)
    ah, q, version = ask(r)
    if q or any(n == 'DataServiceVersion' for n, v in ah):
        ah, q = [], None
    before = w.dump() if ck in w.model[name] else None
    x = w.req('POST', url('/' + name), hs + ah, data)
    if x is None:
        return
    if ck in w.model[name]:
        w.m.check(400 <= x.status < 500, 'duplicate-created', repr(x), w.ctx())
        w.m.check(w.dump() == before, 'duplicate-changed', w.ctx())
        w.m.count('duplicates')
        return
    if not w.m.check(x.status == 201, 'create', repr(x), w.ctx()):
        return
    w.model[name][ck] = (mvs, row)
    e = decoded(w, 'create-body', odh.entry, x, BASE, version)
    if e is not None:
        checkentry(w, name, e, ck, None, 'created')
        w.m.check(x.header('Location') == e.uri, 'location', x.header('Location'), e.uri, w.ctx())
    w.m.count('creates')


def w_media(w, r, name):
    data = ''.join(chr(r.randrange(256)) for i in range(r.choice([0, 1, 20, 5000, 20000])))
    t = r.choice(['text/plain', 'image/png', 'application/octet-stream', 'text/html; charset=utf-8'])
    if w.model[name] and r.random() < 0.5:
        ck = r.choice(sorted(w.model[name]))
        x = w.req('PUT', ROOT + path(w, name, ck) + '/$value', [('Content-Type', t)], data)
        if x is not None and w.m.check(x.status == 204, 'put-media', repr(x), w.ctx()):
            w.streams[name][ck] = (t, data)
            w.m.count('media_writes')
        return
    x = w.req('POST', url('/' + name), [('Content-Type', t)], data)
    if x is None or not w.m.check(x.status == 201, 'create-media', repr(x), w.ctx()):
        return
    e = decoded(w, 'create-media-body', odh.entry, x, BASE)
    if e is None:
        return
    ck = keyof(w, name, e)
    if w.m.check(ck is not None and ck not in w.model[name], 'media-key', ck, w.ctx()):
        w.model[name][ck] = (ck, dict((n, odw.blank(t1) if t1 in COMPLEX else None) for n, t1 in SETS[name][1]))
        w.streams[name][ck] = (t, data)
        checkentry(w, name, e, ck, None, 'created-media')
        w.m.count('media_writes')


def w_update(w, r, name):
    if not w.model[name]:
        return
    ck = r.choice(sorted(w.model[name]))
    mvs, old = w.model[name][ck]
    hs, data, row = body(w, r, name, w.gen.row(r, name, True), mvs if r.random() < 0.7 else None)
    if data[0] == '{' and any(t in ('DateTime', 'DateTimeOffset') for n, t in SETS[name][0]):
        return
    x = w.req('PUT', ROOT + path(w, name, ck), hs, data)
    if x is not None and w.m.check(x.status == 204, 'update', repr(x), w.ctx()):
        w.model[name][ck] = (mvs, row)
        w.m.count('updates')


def w_property(w, r, name):
    if not w.model[name]:
        return
    ck = r.choice(sorted(w.model[name]))
    mvs, row = w.model[name][ck]
    keys, props, stream = SETS[name]
    n, t = r.choice(props)
    p = path(w, name, ck) + '/' + n
    target = row = dict(row)
    n0 = n
    while t in COMPLEX and r.random() < 0.6:
        target[n] = dict(target[n])
        target = target[n]
        n, t = r.choice(COMPLEX[t])
        p += '/' + n
    k = r.random()
    if k < 0.2 and t not in COMPLEX:
        x = w.req('DELETE', ROOT + p)
        want = None
    elif k < 0.55 and t not in COMPLEX:
        want = w.gen.simple(r, t)
        if t == 'Binary':
            hs, data = [('Content-Type', r.choice(['application/octet-stream', None]))], want
        else:
            hs, data = [('Content-Type', 'text/plain; charset=utf-8')], odh.xmltext(t, want).encode('utf-8')
        x = w.req('PUT', ROOT + p + '/$value', hs, data)
    else:
        want = w.gen.value(r, t)
        if r.random() < 0.5:
            hs, data = [('Content-Type', r.choice(['application/xml', 'application/xml; charset=utf-8', 'text/xml; charset=utf-8', None]))], odh.propxml(n, t, want, True).encode('utf-8')
        else:
            hs, data = [('Content-Type', r.choice(['application/json', None]))], json.dumps({n: odh.propjson(t, want)})
            want = odh.msprecision(t, want)
        x = w.req('PUT', ROOT + p, hs, data)
    if x is not None and w.m.check(x.status == 204, 'update-property', repr(x), w.ctx()):
        target[n] = want
        w.model[name][ck] = (mvs, row)
        w.m.count('property_writes')


def w_delete(w, r, name):
    ck, mvs = w.pick(r, name)
    if ck is None:
        return
    x = w.req('DELETE', ROOT + '/%s%s' % (name, odh.keypath(SETS[name][0], mvs)))
    if x is None:
        return
    if ck in w.model[name]:
        if w.m.check(x.status == 204, 'delete', repr(x), w.ctx()):
            del w.model[name][ck]
            w.streams[name].pop(ck, None)
            w.m.count('deletes')
    else:
        w.m.check(x.status == 404, 'delete-missing', repr(x), w.ctx())


def w_link(w, r):
    k = r.choice(sorted(w.owners))
    p = '/Owners(%s)' % odh.escurl(odh.uriliteral('String', k))
    t = r.choice(sorted(w.things) * 3 + [99])
    href = r.choice([BASE, BASE, '']) + 'Things(%d)' % t
    if r.random() < 0.5:
        hs, data = [('Content-Type', r.choice(['application/json', None]))], json.dumps({'uri': href})
    else:
        hs, data = [('Content-Type', r.choice(['application/xml', 'text/xml; charset=utf-8', None]))], '<uri xmlns="%s">%s</uri>' % (odh.D, href)
    what = r.randrange(7)
    if what == 0:
        x = w.req('POST', ROOT + p + '/$links/Things', hs, data)
        ok = t in w.things
        if x is None:
            return
        if not ok:
            w.m.check(400 <= x.status < 500, 'link-missing', repr(x), w.ctx())
        elif t in w.own and w.own[t] != k:
            # owned by another: refused or taken over
            if x.status < 300:
                w.own[t] = k
        elif w.m.check(x.status == 204, 'post-link', repr(x), w.ctx()):
            w.own[t] = k
    elif what == 1:
        x = w.req('DELETE', ROOT + p + '/$links/Things(%d)' % t)
        if x is None:
            return
        if w.own.get(t) == k:
            if w.m.check(x.status == 204, 'delete-link', repr(x), w.ctx()):
                del w.own[t]
        else:
            w.m.check(x.status == 404, 'delete-no-link', repr(x), w.ctx())
    elif what in (2, 3):
        method = 'PUT' if what == 2 else 'POST'
        x = w.req(method, ROOT + p + '/$links/Prime', hs, data)
        if x is None:
            return
        free = t not in w.prime.values() or w.prime.get(k) == t
        if t not in w.things:
            w.m.check(400 <= x.status < 500, 'link-missing', repr(x), w.ctx())
        elif method == 'POST' and k in w.prime:
            w.m.check(400 <= x.status < 500, 'post-existing-link', repr(x), w.ctx())
        elif not free:
            if x.status < 300:
                for o in list(w.prime):
                    if w.prime[o] == t:
                        del w.prime[o]
                w.prime[k] = t
        elif w.m.check(x.status == 204, 'put-link', repr(x), w.ctx()):
            w.prime[k] = t
    elif what == 4:
        x = w.req('DELETE', ROOT + p + '/$links/Prime')
        if x is None:
            return
        if k in w.prime:
            if w.m.check(x.status == 204, 'delete-single-link', repr(x), w.ctx()):
                del w.prime[k]
        else:
            w.m.check(x.status == 404, 'delete-no-single-link', repr(x), w.ctx())
    elif what == 5:
        # a new owner bound on creation
        free = [y for y in w.things if y not in w.own]
        ts = r.sample(free, r.randint(0, min(3, len(free))))
        new = r.choice([u'new1', u'new 2', u"n'3", u'\xe94'])
        one = r.choice([y for y in w.things if y not in w.prime.values()] + [None])
        props = [('Name', 'String'), ('A', 'Int32')]
        row = {'Name': new, 'A': r.choice([None, 5])}
        links = [('Things', BASE + 'Things(%d)' % y, True) for y in ts] + ([('Prime', BASE + 'Things(%d)' % one, False)] if one is not None else [])
        if r.random() < 0.5:
            hs, data = [('Content-Type', 'application/json')], odh.entryjson(props, row, links)
        else:
            hs, data = [('Content-Type', 'application/atom+xml')], odh.entryxml(props, row, [l[:2] for l in links])
        x = w.req('POST', ROOT + '/Owners', hs, data)
        if x is None:
            return
        if new in w.owners:
            w.m.check(400 <= x.status < 500, 'duplicate-owner', repr(x), w.ctx())
        elif w.m.check(x.status == 201, 'bound-create', repr(x), w.ctx()):
            w.owners[new] = row['A']
            for y in ts:
                w.own[y] = new
            if one is not None:
                w.prime[new] = one
    else:
        # the other end, changed by an update
        if not w.things:
            return
        t = r.choice(sorted(w.things))
        props, row = [('ID', 'Int32'), ('A', 'Int32')], {'ID': t, 'A': r.choice([None, 7])}
        h = BASE + 'Owners(%s)' % odh.escurl(odh.uriliteral('String', k))
        if r.random() < 0.5:
            hs, data = [('Content-Type', 'application/json')], odh.entryjson(props, row, [('Owner', h, False)])
        else:
            hs, data = [('Content-Type', 'application/atom+xml')], odh.entryxml(props, row, [('Owner', h)])
        x = w.req('PUT', ROOT + '/Things(%d)' % t, hs, data)
        if x is not None and w.m.check(x.status == 204, 'bound-update', repr(x), w.ctx()):
            w.own[t] = k
            w.things[t] = row['A']
    w.m.count('link_writes')


WRITES = [w_create] * 4 + [w_update] * 3 + [w_property] * 5 + [w_delete]


def f_writes(m, r):
    w = W(m, r, r.sample(sorted(SETS), 2))
    w.fill(r.choice([0, 2, 4]))
    for i in range(10):
        if r.random() < 0.3:
            w_link(w, r)
        else:
            r.choice(WRITES)(w, r, r.choice(w.names))
        if r.random() < 0.3:
            r_entity(w, r, r.choice(w.names))
        w.check()
    m.key(tuple(w.log))
    m.sample(w.ctx())


# ------------------------------------------------------------ hostile requests
def mangle(r, s):
    s = list(s)
    for i in range(r.choice([1, 1, 1, 2, 4])):
        k = r.randrange(5)
        p = r.randrange(len(s) + 1)
        if k == 0 and s:
            del s[p % len(s)]
        elif k == 1:
            s.insert(p, r.choice('<>&"\'{}[]:,/\\0a\x00\xff\xc3 (;'))
        elif k == 2 and s:
            s[p % len(s)] = r.choice('<>&"{}[]:,1-.eN\xe9')
        elif k == 3:
            q = r.randrange(len(s) + 1)
            s[min(p, q):max(p, q)] = []
        else:
            s[p:p] = s[p:p + r.randrange(30)]
    return ''.join(s)


JUNK = [None, True, -1, 1e400, 10 ** 30, u'', u'x', u'/Date(x)/', u'/Date(99999999999999999999)/', u'2000-01-01', [], {}, [1], {'a': 1}, u'\x00', u'!!!', u'-', 1.5,
        {'__metadata': {}}, {'__metadata': {'uri': u'::'}}, {'uri': 1}, [{'__metadata': {'uri': 'Things(1)'}}]]


def f_hostile(m, r):
    name = r.choice(['Items', 'Pairs', 'Docs', 'Stamps', 'Names'])
    w = W(m, r, [name])
    w.fill(2)
    keys, props, stream = SETS[name]
    if not w.model[name]:
        return
    for i in range(8):
        ck = r.choice(sorted(w.model[name]))
        mvs, row = w.model[name][ck]
        p = path(w, name, ck)
        kind = k = r.randrange(7)
        method, u, hs, data = 'GET', p, [], None
        n, t = r.choice(props)
        if k == 0:
            # any address
            u = r.choice(['/', '']) + mangle(r, r.choice([p, p + '/' + n, '/%s?$filter=A%%20eq%%201&$orderby=N' % name, p + '/$value', "/Owners('a')/Things(1)/Owner/A",
                                                          '/%s/$count' % name, "/Owners('a')/$links/Things", '/$metadata', '/Owners?$expand=Things/Owner&$select=Name,Things/ID'])[1:])
            u = ''.join(c if 33 <= ord(c) < 127 and c not in '<>"{}|\\^`#[]' else '%%%02X' % ord(c) for c in u)
            if not u.startswith('/'):
                u = '/' + u
            method = r.choice(['GET', 'GET', 'HEAD', 'DELETE', 'PUT', 'POST', 'MERGE', 'OPTIONS', 'get', 'FOO'])
            if method in ('PUT', 'POST'):
                data = r.choice(['', '{}', '<a/>'])
        elif k == 1:
            hs = [r.choice([('Accept', mangle(r, 'application/json, */*; q=0.5')), ('DataServiceVersion', mangle(r, '2.0; x')), ('MaxDataServiceVersion', mangle(r, '1.0')),
                            ('Accept', r.choice(['', 'image/png', 'application/json;q=2', ',', 'text/plain;q=0', '*', 'application/atom+xml;type=feed'])),
                            ('DataServiceVersion', r.choice(['3.0', '2.1', '', 'x', '1'])), ('Content-Type', 'x'), ('Content-Length', '-1')])]
            u = r.choice([p, '/' + name, p + '/' + n, '/', '/$metadata', p + '/$value', '/%s/$count' % name, '', "/Owners('a')/$links/Things"])
        elif k == 2:
            # mangled bodies
            method, u = r.choice([('POST', '/' + name), ('PUT', p)])
            hs, data, z = body(w, r, name, w.gen.row(r, name, True), w.gen.key(r, keys, True))
            data = mangle(r, data)
        elif k == 3:
            # values of the wrong kind
            method, u = r.choice([('POST', '/' + name), ('PUT', p), ('PUT', p + '/' + n)])
            j = dict((z, odh.propjson(zt, row[z])) for z, zt in props)
            j[r.choice([z for z, zt in props + keys])] = r.choice(JUNK)
            data = json.dumps(r.choice([j, j, j, j, r.choice(JUNK), {n: r.choice(JUNK)}]))
            hs = [('Content-Type', r.choice(['application/json', None]))]
        elif k == 4:
            z = r.choice([y for y, yt in props + keys])
            text = r.choice(['', 'x', '-', '1e999', '9' * 40, '2000-13-45T00:00:00', 'true', '&#65533;', '<d:W>x</d:W>', 'NaN', '00', 'AB', '1.5', '24:00:00', 'P1D'])
            method = 'PUT'
            if r.random() < 0.5:
                u = p + '/' + n
                data = '<d:%s xmlns:d="%s" xmlns:m="%s">%s</d:%s>' % (n, odh.D, odh.M, text, n)
            else:
                method, u = r.choice([('POST', '/' + name), ('PUT', p)])
                data = ('<entry xmlns="%s" xmlns:d="%s" xmlns:m="%s"><content type="application/xml"><m:properties><d:%s>%s</d:%s></m:properties></content></entry>'
                        % (odh.ATOM, odh.D, odh.M, z, text, z))
            hs = [('Content-Type', r.choice(['application/xml', 'application/atom+xml', None]))]
        elif k == 5:
            method, u = 'PUT', p + '/' + n + '/$value'
            data = r.choice(['', 'x', '\xff\xfe', '9' * 40, '1.5', 'NaN', '\x00', '2000-01-01'])
            hs = [('Content-Type', r.choice(['text/plain', 'text/plain; charset=utf-8', 'text/plain; charset=nosuch', 'application/octet-stream', 'image/png', None, '', 'x', 'text/plain; charset=utf-16']))]
        else:
            method, u = r.choice([('POST', "/Owners(%s)/$links/Things"), ('PUT', "/Owners(%s)/$links/Prime"), ('POST', "/Owners(%s)/$links/Prime"), ('PUT', "/Owners(%s)/$links/Things")])
            u = u % odh.escurl(odh.uriliteral('String', r.choice(sorted(w.owners))))
            href = r.choice(['', 'Things', 'Nosuch(1)', 'http://other/Things(1)', BASE + 'Owners', "Things('x')", 'Things(99)', '::', ROOT, BASE + 'Things(1)/Owner', BASE + 'Things(1)/A', '$metadata', '\xff'])
            data = r.choice([json.dumps({'uri': href.decode('latin-1')}), '<uri xmlns="%s">%s</uri>' % (odh.D, href), '<uri/>', '{}', '[]', 'x', json.dumps({'uri': 5})])
            hs = [('Content-Type', r.choice(['application/xml', 'application/json', None, 'application/xml; charset=latin-1', 'application/json; charset=utf-16', 'application/xml; charset=nosuch']))]
        before = w.dump()
        x = w.req(method, ROOT + u, hs, data)
        if x is None:
            continue
        after = w.dump()
        if method in ('GET', 'HEAD', 'get') or x.status >= 400:
            if not m.check(after == before, 'refused-changed', x.status, [k for k in set(before) | set(after) if before.get(k) != after.get(k)], w.ctx()):
                return
        if x.status < 300:
            m.count('hostile_ok')
            if after != before:
                return
        else:
            m.count('hostile_refused')
            m.count('refused_%d' % kind)
    m.key(tuple(w.log))
    m.sample(w.ctx())


def f_service(m, r):
    """Documents about the service itself"""
    root = r.choice(['http://host/svc', 'http://host/svc/', 'http://host/', 'http://host', 'http://host/a/b%20c.svc', 'https://host/x'])
    doc, s = world(root)
    prefix = re.match(r'https?://host(.*?)/?\Z', root).group(1)
    base = root.rstrip('/') + '/'
    w = W(m, r, ['Names'])
    w.server = s
    s.SetModel(w.doc)
    host = root[:root.index('host') + 4]
    req = lambda method, p, hs=(): odh.call(s, method, host + prefix + p, hs, None, '', host)
    m.key((root, r.random()))
    m.sample(root)
    try:
        if prefix:
            x = req('GET', '', [('Accept', r.choice([None, 'text/html', 'application/json', '*/*']))])
            m.check(x.status == 307 and x.header('Location') == base, 'redirect', repr(x), root)
        x = req('GET', '/', [('Accept', r.choice([None, 'application/atomsvc+xml', 'application/xml', '*/*']))])
        m.check(x.status == 200, 'service-document', repr(x))
        n = odh.dom(x.body)
        m.check((n.ns, n.name) == (odh.APP, 'service') and x.mtype() in ('application/atomsvc+xml', 'application/xml', 'text/plain'), 'service-root', n.name, x.headers)
        b = n.get('base', 'http://www.w3.org/XML/1998/namespace') or base
        ws = n.one(odh.APP, 'workspace')
        names = sorted(odh.rel(b, c.get('href')) for c in ws.all(odh.APP, 'collection'))
        want = sorted(list(SETS) + ['Owners', 'Things'])
        m.check(names == sorted(base + k for k in want), 'service-collections', names, want, root)
        x = req('GET', '/', [('Accept', 'application/json')])
        m.check(x.status == 200 and x.mtype() == 'application/json' and sorted(odh.loads(x.body)['d']['EntitySets']) == want, 'service-json', repr(x))
        x = req('GET', '/$metadata')
        m.check(x.status == 200 and x.mtype() in ('application/xml', 'text/xml'), 'metadata', x.headers)
        n = odh.dom(x.body)
        sets = [e.get('Name') for sc in n.children[0].children for c in sc.children if c.name == 'EntityContainer' for e in c.children if e.name == 'EntitySet']
        m.check(n.name == 'Edmx' and sorted(sets) == want, 'metadata-sets', sets)
        for method in ('POST', 'PUT', 'DELETE'):
            x = req(method, r.choice(['/$metadata', '/']))
            m.check(400 <= x.status < 500, 'document-method', method, repr(x))
        x = req('GET', '/Owners', [('Accept', 'image/png')])
        m.check(x.status == 406, 'not-acceptable', repr(x))
        x = req('GET', '/Owners', [('DataServiceVersion', r.choice(['3.0', '2.1', '9.9; x']))])
        m.check(x.status == 400, 'future-version', repr(x))
        x = odh.call(s, 'GET', host + r.choice(['/other', '/svcx/Owners', '/zz/Owners']) if prefix else host + '/Owners', [], None, '', host)
        m.check(x.status == (404 if prefix else 200), 'not-ours', repr(x), root)
        m.count('services')
        # a server that only reads
        doc2, s2 = world(root)
        ro = server.ReadOnlyServer(root)
        ro.SetModel(doc2)
        with doc2.root.DataServices['V.C.Things'].OpenCollection() as c:
            e = c.NewEntity()
            e.SetKey(1)
            c.InsertEntity(e)
        for method, p in (('GET', '/Things'), ('HEAD', '/Things(1)'), ('GET', '/Things(1)/A')):
            x = odh.call(ro, method, host + prefix + p, [], None, '', host)
            m.check(x.status == 200, 'readonly-get', method, p, repr(x))
        for method, p, data in (('DELETE', '/Things(1)', None), ('PUT', '/Things(1)', '{"ID":1,"A":5}'), ('POST', '/Things', '{"ID":2}'), ('PUT', '/Things(1)/A/$value', '4'), ('POST', '/Things', None)):
            x = odh.call(ro, method, host + prefix + p, [], data, '', host)
            m.check(x.status in (401, 403, 405), 'readonly-write', method, p, repr(x))
        with doc2.root.DataServices['V.C.Things'].OpenCollection() as c:
            m.check(list(c) == [1] and c[1]['A'].value is None, 'readonly-changed', list(c))
    except Bad as e:
        m.violate('service-response', '%s %s' % (e, root))


FAMILIES = [
    Family('reads', f_reads, 700, 8000, {'entities_atom': 500, 'entities_json': 500, 'feeds': 800, 'links_read': 400, 'lookups': 9000, 'next_links': 150, 'properties': 200, 'raw': 150}),
    Family('writes', f_writes, 500, 6000, {'creates': 250, 'updates': 250, 'deletes': 60, 'link_writes': 700, 'property_writes': 500, 'media_writes': 60}),
    Family('hostile', f_hostile, 800, 10000, {'hostile_refused': 1500, 'hostile_ok': 400}),
    Family('service', f_service, 60, 400, {'services': 60}),
]
