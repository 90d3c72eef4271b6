"""O09 metadata documents describe the model and are checked"""

import copy
import StringIO
from lib import Family
from java.io import ByteArrayInputStream
from javax.xml.parsers import DocumentBuilderFactory
from org.xml.sax import ErrorHandler
import pyslet.odata2.csdl as edm
import pyslet.odata2.edmx as edmx
import pyslet.odata2.metadata as metadata
import pyslet.odata2.core as core
import pyslet.xml20081126.structures as xml

PROPERTY = 'O09'
NSS = ["http://schemas.microsoft.com/ado/2009/11/edm", "http://schemas.microsoft.com/ado/2006/04/edm",
       "http://schemas.microsoft.com/ado/2007/05/edm", "http://schemas.microsoft.com/ado/2008/09/edm"]
MNS = "http://schemas.microsoft.com/ado/2007/08/dataservices/metadata"
XNS = "http://schemas.microsoft.com/ado/2007/06/edmx"
SIMPLE = ['Binary', 'Boolean', 'Byte', 'DateTime', 'DateTimeOffset', 'Time', 'Decimal', 'Double', 'Single', 'Guid', 'Int16', 'Int32', 'Int64', 'String', 'SByte']
MULT = ['0..1', '1', '*']
REFUSED = (edm.EDMError, KeyError, ValueError, xml.XMLError)
M = 'm:'


# --- the model: plain data -------------------------------------------------

class Names(object):
    def __init__(self, r):
        self.r = r
        self.used = set()

    def __call__(self, hint):
        r = self.r
        for i in xrange(1000):
            n = r.choice([hint, hint.lower(), hint + u'_%d' % r.randint(0, 9), hint + str(r.randint(0, 99)), u'\xc9t\xe9' + hint, u'\u0391' + hint, hint * 2,
                          hint + u'e\u0301', hint + u'\u200c', u'\u2160' + hint, hint + u'\u0663'])
            if n not in self.used:
                self.used.add(n)
                return n
        raise RuntimeError('names')


def facets(r, t):
    a = {}
    c = r.random
    if c() < .4:
        a['Nullable'] = r.choice(['true', 'false', '0', '1'])
    if t in ('String', 'Binary'):
        if c() < .4:
            a['MaxLength'] = r.choice(['max', 'Max', 'MAX', '1', '40', '2147483647', '2147483648'])
        if c() < .2:
            a['FixedLength'] = r.choice(['true', 'false'])
    if t == 'String':
        if c() < .2:
            a['Unicode'] = r.choice(['true', 'false'])
        if c() < .2:
            a['Collation'] = r.choice(['en_US', 'Latin1_General_CI'])
    if t in ('Decimal', 'DateTime', 'DateTimeOffset', 'Time') and c() < .4:
        a['Precision'] = str(r.randint(0, 28))
    if t == 'Decimal' and c() < .4:
        a['Scale'] = str(r.randint(0, 10))
    if c() < .2:
        a['DefaultValue'] = r.choice(['0', '', 'x y', '<&">', u'\xe9', "it's", ' lead'])
    if c() < .2:
        a['ConcurrencyMode'] = r.choice(['Fixed', 'None'])
    if c() < .05:
        a['CollectionKind'] = r.choice(['None', 'Bag', 'List'])
    if c() < .05:
        a['SRID'] = r.choice(['4326', 'Variable'])
    if c() < .1:
        a[M + 'MimeType'] = r.choice(['text/plain', 'text/html;charset=utf-8', 'application/json'])
    if c() < .1:
        a[M + 'FC_TargetPath'] = r.choice(['SyndicationTitle', 'SyndicationAuthorName', 'SyndicationSummary'])
        a[M + 'FC_KeepInContent'] = r.choice(['true', 'false'])
        if c() < .5:
            a[M + 'FC_ContentKind'] = 'text'
    return a


def doc_el(r):
    if r.random() < .12:
        return {'Summary': r.choice([u'A thing', u'\xe9 & <b>', u'two words here']), 'Long': r.choice([None, u'More detail'])}
    return None


def gen(r):
    """A consistent random model"""
    nss = r.sample(['V', 'My.Model', 'Other', 'a.b.c', u'Mod\xe8le', 'Data2.X'], r.choice([1, 1, 2, 3]))
    schemas = [{'ns': n, 'alias': None, 'types': [], 'complex': [], 'assocs': [], 'containers': [], 'doc': None} for n in nss]
    names = dict((n, Names(r)) for n in nss)
    pick = lambda: r.choice(schemas)
    ctypes = []
    for i in xrange(r.choice([0, 1, 2])):
        s = pick()
        t = {'name': names[s['ns']]('Complex'), 'props': [], 'doc': doc_el(r)}
        pn = Names(r)
        for j in xrange(r.randint(1, 4)):
            if ctypes and r.random() < .3:
                p = {'name': pn('Sub'), 'type': r.choice(ctypes), 'a': {'Nullable': 'false'}, 'doc': None}
            else:
                st = r.choice(SIMPLE)
                p = {'name': pn('C'), 'type': r.choice(['Edm.', 'Edm.', '']) + st, 'a': facets(r, st), 'doc': doc_el(r)}
            t['props'].append(p)
        s['complex'].append(t)
        ctypes.append('%s.%s' % (s['ns'], t['name']))
    types = []
    pns = {}
    for i in xrange(r.randint(1, 5)):
        s = pick()
        t = {'name': names[s['ns']]('Type'), 'props': [], 'key': [], 'navs': [], 'a': {}, 'doc': doc_el(r)}
        pn = Names(r)
        nk = r.choice([1, 1, 1, 2, 3])
        plain = []
        for j in xrange(nk + r.randint(0, 5)):
            if ctypes and j >= nk and r.random() < .3:
                p = {'name': pn('Cx'), 'type': r.choice(ctypes), 'a': {'Nullable': 'false'}, 'doc': None}
            else:
                st = r.choice(SIMPLE)
                p = {'name': pn(r.choice('ABCDEFG')), 'type': r.choice(['Edm.', 'Edm.', '']) + st, 'a': facets(r, st), 'doc': doc_el(r)}
                if j < nk:
                    p['a']['Nullable'] = 'false'
                    t['key'].append(p['name'])
            t['props'].append(p)
        if r.random() < .15:
            t['a'][M + 'HasStream'] = r.choice(['true', 'false'])
        if r.random() < .1:
            t['a']['Abstract'] = 'false'
        s['types'].append(t)
        fq = '%s.%s' % (s['ns'], t['name'])
        types.append((fq, t))
        pns[fq] = pn
    unbound = set()
    assocs = []
    for i in xrange(r.choice([0, 1, 1, 2, 3, 4])):
        s = pick()
        ends = [r.choice(types), r.choice(types)]
        roles = Names(r)
        a = {'name': names[s['ns']]('Assoc'), 'ends': [], 'refc': None, 'doc': doc_el(r), 'navs': [None, None]}
        fq = '%s.%s' % (s['ns'], a['name'])
        mult = [r.choice(MULT), r.choice(MULT)]
        for k in (0, 1):
            a['ends'].append({'role': roles(r.choice(['Role', 'R', ends[k][1]['name']])), 'type': ends[k][0], 'mult': mult[k],
                              'ondelete': r.choice([None] * 6 + ['Cascade', 'None']), 'doc': doc_el(r)})
        if r.random() < .2 and ends[0][1]['name'] != ends[1][1]['name']:
            k = r.randrange(2)
            if a['ends'][1 - k]['role'] != ends[k][1]['name']:
                a['ends'][k].update(role=ends[k][1]['name'], default=True)
        for k in (0, 1):
            # end k is navigable from its type unless we say otherwise
            navigable = r.random() < .7
            if not navigable and mult[1 - k] == '1':
                if ends[k][0] in unbound:
                    navigable = True
                else:
                    unbound.add(ends[k][0])
            if navigable:
                n = {'name': pns[ends[k][0]]('Nav'), 'rel': fq, 'from': a['ends'][k]['role'], 'to': a['ends'][1 - k]['role'], 'doc': doc_el(r)}
                ends[k][1]['navs'].append(n)
                a['navs'][k] = n['name']
        if r.random() < .15:
            kp = [k for k in ends[0][1]['key']]
            dp = [p['name'] for p in ends[1][1]['props'] if p['type'].split('.')[-1] in SIMPLE]
            if len(dp) >= len(kp):
                a['refc'] = (a['ends'][0]['role'], kp, a['ends'][1]['role'], dp[:len(kp)])
        s['assocs'].append(a)
        assocs.append((fq, a))
    # containers
    nc = r.choice([1, 1, 2])
    default = r.randrange(nc)
    for ci in xrange(nc):
        s = pick()
        cn = Names(r)
        c = {'name': names[s['ns']]('Container'), 'default': None, 'sets': [], 'asets': [], 'funcs': [], 'doc': doc_el(r)}
        if ci == default:
            c['default'] = 'true'
        elif r.random() < .5:
            c['default'] = 'false'
        # a group of types closed under association
        chosen = set(fq for fq, t in types) if r.random() < .6 else set(fq for fq, t in types if r.random() < .5) or set([types[0][0]])
        while True:
            n = len(chosen)
            for fq, a in assocs:
                e = [x['type'] for x in a['ends']]
                if e[0] in chosen or e[1] in chosen:
                    chosen.update(e)
            if len(chosen) == n:
                break
        setof = {}
        for fq, t in types:
            if fq not in chosen:
                continue
            e = {'name': cn('Set'), 'type': fq, 'a': {}, 'doc': doc_el(r)}
            c['sets'].append(e)
            setof[fq] = [e]
        # a second set of the same type, when its associations allow
        for fq, t in types:
            if fq not in chosen or r.random() > .15:
                continue
            mine = [a for x, a in assocs if fq in (a['ends'][0]['type'], a['ends'][1]['type'])]
            ok = True
            for a in mine:
                k = 0 if a['ends'][0]['type'] == fq else 1
                if a['ends'][1 - k]['type'] == fq or a['navs'][1 - k] is not None or a['ends'][k]['mult'] == '1':
                    ok = False
                if a['navs'][k] is None or len(setof.get(a['ends'][1 - k]['type'], [])) > 1:
                    ok = False
            if ok:
                e = {'name': cn('Extra'), 'type': fq, 'a': {}, 'doc': None}
                c['sets'].append(e)
                setof[fq].append(e)
        for fq, a in assocs:
            e = [x['type'] for x in a['ends']]
            if e[0] not in chosen:
                continue
            for s0 in setof[e[0]]:
                for s1 in (setof[e[1]] if e[0] != e[1] else [s0]):
                    ends = [{'role': a['ends'][0]['role'], 'set': s0['name'], 'bind': 0, 'doc': None},
                            {'role': a['ends'][1]['role'], 'set': s1['name'], 'bind': 1, 'doc': None}]
                    x = r.random()
                    ambiguous = False
                    if x < .1:
                        ends[0]['role'] = None
                    elif x < .2:
                        ends[1]['role'] = None
                    elif x < .3:
                        ends[0]['role'] = ends[1]['role'] = None
                        ambiguous = e[0] == e[1]
                    if r.random() < .5:
                        ends.reverse()
                    c['asets'].append({'name': cn('ASet'), 'assoc': fq, 'ends': ends, 'ambiguous': ambiguous, 'doc': doc_el(r)})
        for j in xrange(r.choice([0, 0, 1, 2])):
            f = {'name': cn('Func'), 'set': None, 'ret': None, 'params': [], 'a': {M + 'HttpMethod': r.choice(['GET', 'POST', 'PUT', 'MERGE', 'DELETE'])}, 'doc': doc_el(r)}
            x = r.random()
            coll = r.random() < .5
            if x < .1:
                pass
            elif x < .45:
                e = r.choice(c['sets'])
                f['ret'] = e['type']
                if coll or r.random() < .5:
                    f['set'] = e['name']
            elif x < .6 and ctypes:
                f['ret'] = r.choice(ctypes)
            else:
                f['ret'] = 'Edm.' + r.choice(SIMPLE)
            f['coll'] = coll and f['ret'] is not None
            pn = Names(r)
            for k in xrange(r.choice([0, 1, 2])):
                st = r.choice(SIMPLE)
                pa = {}
                if r.random() < .5:
                    pa['Mode'] = r.choice(['In', 'Out', 'InOut'])
                if st == 'String' and r.random() < .5:
                    pa['MaxLength'] = r.choice(['max', '10'])
                if st == 'Decimal':
                    pa['Precision'] = str(r.randint(1, 20))
                    pa['Scale'] = '2'
                f['params'].append({'name': pn('p'), 'type': 'Edm.' + st, 'a': pa, 'doc': None})
            c['funcs'].append(f)
        s['containers'].append(c)
    return {'schemas': schemas, 'extra': None}


# --- the document ----------------------------------------------------------

def esc(s):
    out = []
    for ch in unicode(s):
        if ch in u'<&>"\'\n\t':
            out.append(u'&#%d;' % ord(ch))
        else:
            out.append(ch)
    return u''.join(out)


def el(r, name, attrs, kids=u'', doc=None):
    at = [(k, v) for k, v in attrs if v is not None]
    r.shuffle(at)
    if doc is not None:
        d = u'<Documentation><Summary>%s</Summary>%s</Documentation>' % (
            esc(doc['Summary']), u'<LongDescription>%s</LongDescription>' % esc(doc['Long']) if doc['Long'] else u'')
        kids = d + kids
    s = u'<%s%s' % (name, u''.join(u' %s=%s%s%s' % (k, q, esc(v), q) for k, v in at for q in r.choice([u'"', u"'"])))
    return s + (u'>%s</%s>' % (kids, name) if kids else r.choice([u'/>', u'></%s>' % name]))


def render(model, seed):
    """XML text; the free choices of layout come from seed so that a mutant
    is laid out as the original was"""
    import random
    r = random.Random(seed)
    ns = r.choice(NSS)
    lay = r.choice([u'', u'\n', u'\n\t'])
    out = []
    for s in model['schemas']:
        kids = []
        for t in s['types']:
            k = u'' if t['key'] is None else el(r, 'Key', [], lay.join([el(r, 'PropertyRef', [('Name', n)]) for n in t['key']]))
            k += lay.join([prop(r, p) for p in t['props']] + [el(r, 'NavigationProperty', [('Name', n['name']), ('Relationship', n['rel']), ('FromRole', n['from']), ('ToRole', n['to'])],
                                                                 doc=n['doc']) for n in t['navs']])
            kids.append(el(r, 'EntityType', [('Name', t['name'])] + t['a'].items(), k, t['doc']))
        for t in s['complex']:
            kids.append(el(r, 'ComplexType', [('Name', t['name'])], lay.join([prop(r, p) for p in t['props']]), t['doc']))
        for a in s['assocs']:
            k = u''
            for e in a['ends']:
                k += el(r, 'End', [('Role', None if e.get('default') else e['role']), ('Type', e['type']), ('Multiplicity', e['mult'])],
                        el(r, 'OnDelete', [('Action', e['ondelete'])]) if e['ondelete'] else u'', e['doc']) + lay
            if a['refc']:
                p, pp, d, dp = a['refc']
                k += el(r, 'ReferentialConstraint', [], el(r, 'Principal', [('Role', p)], u''.join(el(r, 'PropertyRef', [('Name', n)]) for n in pp)) +
                        el(r, 'Dependent', [('Role', d)], u''.join(el(r, 'PropertyRef', [('Name', n)]) for n in dp)))
            kids.append(el(r, 'Association', [('Name', a['name'])], k, a['doc']))
        for c in s['containers']:
            ck = []
            for e in c['sets']:
                ck.append(el(r, 'EntitySet', [('Name', e['name']), ('EntityType', e['type'])] + e['a'].items(), doc=e['doc']))
            for a in c['asets']:
                ck.append(el(r, 'AssociationSet', [('Name', a['name']), ('Association', a['assoc'])],
                             lay.join([el(r, 'End', [('Role', e['role']), ('EntitySet', e['set'])], doc=e['doc']) for e in a['ends']]), a['doc']))
            for f in c['funcs']:
                ck.append(el(r, 'FunctionImport', [('Name', f['name']), ('EntitySet', f['set']),
                                                   ('ReturnType', None if f['ret'] is None else 'Collection(%s)' % f['ret'] if f['coll'] else f['ret'])] + f['a'].items(),
                             u''.join(el(r, 'Parameter', [('Name', p['name']), ('Type', p['type'])] + p['a'].items(), doc=p['doc']) for p in f['params']), f['doc']))
            if r.random() < .5:
                r.shuffle(ck)
            kids.append(el(r, 'EntityContainer', [('Name', c['name']), (M + 'IsDefaultEntityContainer', c['default'])], lay.join(ck), c['doc']))
        if r.random() < .7:
            r.shuffle(kids)
        out.append(u'<Schema Namespace="%s"%s xmlns="%s">%s</Schema>' % (esc(s['ns']), u' Alias="%s"' % s['alias'] if s['alias'] else u'', ns, lay.join(kids)))
    body = lay.join(out)
    v = model.get('version', '1.0' if u'FC_KeepInContent="false"' not in body and u"FC_KeepInContent='false'" not in body else '2.0')
    return (u'<?xml version="1.0" encoding="utf-8"?><edmx:Edmx Version="1.0" xmlns:edmx="%s" xmlns:m="%s">'
            u'<edmx:DataServices%s>%s</edmx:DataServices></edmx:Edmx>' % (XNS, MNS, u' m:DataServiceVersion="%s"' % v if v else u'', body)).encode('utf-8'), v


def prop(r, p):
    return el(r, 'Property', [('Name', p['name']), ('Type', p['type'])] + p['a'].items(), doc=p['doc'])


BASE = 'http://h.example.com/svc/$metadata'


def load(text, base=BASE):
    doc = metadata.Document(baseURI=base)
    doc.Read(StringIO.StringIO(text))
    return doc


# --- what should be found --------------------------------------------------

def boolean(v):
    return {'true': True, '1': True, 'false': False, '0': False}[v]


def want_facets(a):
    f = {'nullable': True, 'maxLength': None, 'fixedLength': None, 'precision': None, 'scale': None, 'unicode': None, 'collation': None, 'defaultValue': None,
         'concurrencyMode': None, 'SRID': None, 'collectionKind': None}
    for k, v in a.items():
        if k in ('Nullable', 'FixedLength', 'Unicode'):
            f[k[0].lower() + k[1:]] = boolean(v)
        elif k == 'MaxLength':
            f['maxLength'] = 'MAX' if v.lower() == 'max' else int(v)
        elif k in ('Precision', 'Scale'):
            f[k.lower()] = int(v)
        elif k in ('SRID',):
            f[k] = v
        elif k in ('Collation', 'DefaultValue', 'CollectionKind', 'ConcurrencyMode'):
            f[k[0].lower() + k[1:]] = v
    return f


def got_facets(p):
    f = {}
    for k in ('nullable', 'maxLength', 'fixedLength', 'precision', 'scale', 'unicode', 'collation', 'defaultValue', 'SRID', 'collectionKind'):
        f[k] = getattr(p, k)
    if f['maxLength'] == edm.MAX and f['maxLength'] is not None:
        f['maxLength'] = 'MAX'
    f['concurrencyMode'] = None if p.concurrencyMode is None else {edm.ConcurrencyMode.Fixed: 'Fixed', edm.ConcurrencyMode.none: 'None'}.get(p.concurrencyMode)
    return f


def annotations(a):
    return sorted((k[2:], v) for k, v in a.items() if k.startswith(M))


def got_annotations(e):
    out = []
    for k, v in e.GetAttributes().items():
        if type(k) is tuple and k[0] == MNS:
            out.append((k[1], v))
    return sorted(out)


def simple_name(t):
    return t.split('.')[-1] if t.split('.')[-1] in SIMPLE and t in SIMPLE + ['Edm.' + x for x in SIMPLE] else None


def check_model(m, model, doc, where):
    ds = doc.root.DataServices
    allnames = set()
    m.eq([s.name for s in ds.Schema], [s['ns'] for s in model['schemas']], 'schemas', where)

    def find(fq):
        m.require(fq in ds, 'undeclared', where, fq)
        return ds[fq]

    for s in model['schemas']:
        S = find(s['ns'])
        allnames.add(s['ns'])
        m.eq(sorted(x.name for x in S.EntityType), sorted(t['name'] for t in s['types']), 'entity-types', where)
        m.eq(sorted(x.name for x in S.ComplexType), sorted(t['name'] for t in s['complex']), 'complex-types', where)
        m.eq(sorted(x.name for x in S.Association), sorted(t['name'] for t in s['assocs']), 'associations', where)
        m.eq(sorted(x.name for x in S.EntityContainer), sorted(t['name'] for t in s['containers']), 'containers', where)
        for t, cls, want in [(t, metadata.EntityType, 'EntityType') for t in s['types']] + [(t, edm.ComplexType, 'ComplexType') for t in s['complex']]:
            fq = '%s.%s' % (s['ns'], t['name'])
            T = find(fq)
            allnames.add(fq)
            m.require(isinstance(T, cls), 'type-class', where, fq, T.__class__.__name__)
            m.eq(T.GetFQName(), fq, 'fqname', where)
            m.eq([p.name for p in T.Property], [p['name'] for p in t['props']], 'properties', where, fq)
            m.check(S[t['name']] is T, 'lookup', where, fq)
            for p in t['props']:
                pq = '%s.%s' % (fq, p['name'])
                P = find(pq)
                allnames.add(pq)
                m.count('properties')
                m.require(isinstance(P, metadata.Property), 'property-class', where, pq)
                m.eq(P.type, p['type'], 'property-type', where, pq)
                m.eq(got_facets(P), want_facets(p['a']), 'facets', where, pq)
                m.eq(got_annotations(P), annotations(p['a']), 'annotations', where, pq)
                st = simple_name(p['type'])
                if st:
                    m.eq(P.simpleTypeCode, getattr(edm.SimpleType, st), 'simple-type', where, pq)
                    m.check(P.complexType is None, 'complex-type', where, pq)
                    v = P()
                    m.check(isinstance(v, edm.SimpleValue) and not v, 'property-value', where, pq)
                else:
                    m.check(P.simpleTypeCode is None and P.complexType is ds[p['type']], 'complex-type', where, pq)
                    v = P()
                    m.check(isinstance(v, edm.Complex) and sorted(v.keys()) == sorted(x.name for x in P.complexType.Property), 'complex-value', where, pq)
                mt = p['a'].get(M + 'MimeType')
                got = P.GetMimeType()
                m.check((got is None) == (mt is None), 'mime-type', where, pq, mt, got)
                m.eq(P.KeepInContent(), p['a'].get(M + 'FC_KeepInContent') == 'true', 'keep', where, pq)
                m.check((P.GetTargetPath() is None) == (M + 'FC_TargetPath' not in p['a']), 'target-path', where, pq)
        for t in s['types']:
            fq = '%s.%s' % (s['ns'], t['name'])
            T = ds[fq]
            m.eq(got_annotations(T), annotations(t['a']), 'annotations', where, fq)
            m.eq(T.HasStream(), t['a'].get(M + 'HasStream') == 'true', 'has-stream', where, fq)
            m.eq([k.name for k in T.Key.PropertyRef], t['key'], 'key', where, fq)
            for k in T.Key.PropertyRef:
                m.check(k.property is T[k.name], 'key-property', where, fq, k.name)
            m.eq([n.name for n in T.NavigationProperty], [n['name'] for n in t['navs']], 'navs', where, fq)
            for n in t['navs']:
                nq = '%s.%s' % (fq, n['name'])
                N = find(nq)
                allnames.add(nq)
                m.count('navs')
                A = ds[n['rel']]
                m.eq((N.relationship, N.fromRole, N.toRole), (n['rel'], n['from'], n['to']), 'nav-attrs', where, nq)
                m.check(N.association is A, 'nav-association', where, nq)
                m.check(N.fromEnd is A[n['from']] and N.toEnd is A[n['to']], 'nav-ends', where, nq)
        for a in s['assocs']:
            fq = '%s.%s' % (s['ns'], a['name'])
            A = find(fq)
            allnames.add(fq)
            m.require(isinstance(A, edm.Association) and len(A.AssociationEnd) == 2, 'association-class', where, fq)
            for k in (0, 1):
                e = a['ends'][k]
                eq = '%s.%s' % (fq, e['role'])
                E = find(eq)
                allnames.add(eq)
                m.count('ends')
                m.check(E is A.AssociationEnd[k], 'end', where, eq)
                m.eq((E.name, E.type, edm.EncodeMultiplicity(E.multiplicity)), (e['role'], e['type'], e['mult']), 'end-attrs', where, eq)
                m.check(E.entityType is ds[e['type']], 'end-type', where, eq)
                m.check(E.otherEnd is A.AssociationEnd[1 - k], 'other-end', where, eq)
                # back links join the two navigation properties of an association
                n = a['navs'][k]
                if n is not None:
                    N = ds[e['type']][n]
                    other = a['navs'][1 - k]
                    wantback = None if other is None else ds[a['ends'][1 - k]['type']][other]
                    m.check(N.backLink is wantback, 'back-link', where, fq, n, 'is', None if N.backLink is None else N.backLink.name, 'not', other)
                    if wantback is not None:
                        m.count('backlinks')
        for c in s['containers']:
            cq = '%s.%s' % (s['ns'], c['name'])
            C = find(cq)
            allnames.add(cq)
            m.eq(C.IsDefaultEntityContainer(), c['default'] == 'true', 'default-container', where, cq)
            m.check((ds.defaultContainer is C) == (c['default'] == 'true'), 'default-container', where, cq)
            m.eq([x.name for x in C.EntitySet], [x['name'] for x in c['sets']] if C.EntitySet and len(C.EntitySet) == len(c['sets']) and
                 [x.name for x in C.EntitySet] == [x['name'] for x in c['sets']] else sorted_as(C.EntitySet, c['sets']), 'sets', where, cq)
            navigation = {}
            for a in c['asets']:
                aq = '%s.%s' % (cq, a['name'])
                A = find(aq)
                allnames.add(aq)
                m.count('asets')
                m.require(isinstance(A, edm.AssociationSet) and len(A.AssociationSetEnd) == 2, 'association-set', where, aq)
                AA = ds[a['assoc']]
                m.check(A.association is AA, 'aset-association', where, aq)
                ends = A.AssociationSetEnd
                for k in (0, 1):
                    e = a['ends'][k]
                    m.check(ends[k].entitySet is C[e['set']], 'aset-set', where, aq, k)
                    m.check(ends[k].otherEnd is ends[1 - k], 'aset-other-end', where, aq, k)
                    m.require(ends[k].associationEnd is not None, 'aset-end', where, aq, k, 'unbound')
                    if not a['ambiguous']:
                        m.check(ends[k].associationEnd is AA.AssociationEnd[e['bind']], 'aset-end', where, aq, k, ends[k].associationEnd.name)
                    m.check(ends[k].name == ends[k].associationEnd.name, 'aset-role', where, aq, k, ends[k].name)
                m.check(ends[0].associationEnd is ends[1].associationEnd.otherEnd and ends[0].associationEnd is not ends[1].associationEnd,
                        'aset-end', where, aq, 'both ends are', ends[0].associationEnd.name)
                m.check(ends[0].GetQualifiedName() != ends[1].GetQualifiedName(), 'aset-names', where, aq)
                for k in (0, 1):
                    b = 0 if ends[k].associationEnd is AA.AssociationEnd[0] else 1
                    am = [x for ss in model['schemas'] for x in ss['assocs'] if '%s.%s' % (ss['ns'], x['name']) == a['assoc']][0]
                    n = am['navs'][b]
                    st = a['ends'][k]['set']
                    if n is not None:
                        navigation[(st, n)] = (ends[k], a['ends'][1 - k]['set'], am['ends'][1 - b]['mult'])
                    m.eq(C[st].linkEnds.get(ends[k], 'missing'), n, 'link-ends', where, aq, k)
            for e in c['sets']:
                eq = '%s.%s' % (cq, e['name'])
                E = find(eq)
                allnames.add(eq)
                m.count('sets')
                m.require(isinstance(E, metadata.EntitySet), 'set-class', where, eq)
                m.check(E.entityType is ds[e['type']] and E.entityTypeName == e['type'], 'set-type', where, eq)
                t = [t for ss in model['schemas'] for t in ss['types'] if '%s.%s' % (ss['ns'], t['name']) == e['type']][0]
                m.eq(E.keys, t['key'], 'set-keys', where, eq)
                m.eq(E.GetFQName(), eq, 'set-fqname', where)
                m.eq(sorted(E.navigation.keys()), sorted(n['name'] for n in t['navs']), 'set-navigation', where, eq)
                for n in t['navs']:
                    end, target, mult = navigation[(e['name'], n['name'])]
                    m.check(E.navigation[n['name']] is end, 'set-navigation', where, eq, n['name'])
                    m.check(E.NavigationTarget(n['name']) is C[target], 'navigation-target', where, eq, n['name'])
                    m.eq(edm.EncodeMultiplicity(E.NavigationMultiplicity(n['name'])[1]), mult, 'navigation-multiplicity', where, eq, n['name'])
                    m.eq(E.IsEntityCollection(n['name']), mult == '*', 'navigation-collection', where, eq, n['name'])
                path = e['name'] if c['default'] == 'true' else c['name'] + '.' + e['name']
                loc = str(E.GetLocation())
                m.eq(unquote(loc), u'http://h.example.com/svc/' + path, 'location', where, eq)
                m.check(ds.SearchContainers(path) is E, 'search-containers', where, path)
            for f in c['funcs']:
                fq = '%s.%s' % (cq, f['name'])
                F = find(fq)
                allnames.add(fq)
                m.count('funcs')
                m.require(isinstance(F, edm.FunctionImport), 'function-class', where, fq)
                m.eq(got_annotations(F), annotations(f['a']), 'annotations', where, fq)
                m.eq([p.name for p in F.Parameter], [p['name'] for p in f['params']], 'parameters', where, fq)
                if f['ret'] is None:
                    m.check(F.returnTypeRef is None and not F.IsCollection() and not F.IsEntityCollection(), 'return-type', where, fq)
                else:
                    m.require(F.returnTypeRef is not None, 'return-type', where, fq, f['ret'])
                    m.eq(F.IsCollection(), f['coll'], 'is-collection', where, fq)
                    m.eq(F.IsEntityCollection(), f['coll'] and f['set'] is not None, 'is-entity-collection', where, fq)
                    st = simple_name(f['ret'])
                    if st:
                        m.eq((F.returnTypeRef.simpleTypeCode, F.returnTypeRef.typeDef), (getattr(edm.SimpleType, st), None), 'return-type', where, fq)
                    else:
                        m.check(F.returnTypeRef.simpleTypeCode is None and F.returnTypeRef.typeDef is ds[f['ret']], 'return-type', where, fq)
                m.check(F.entitySet is (None if f['set'] is None else C[f['set']]), 'function-set', where, fq)
                for p, P in zip(f['params'], F.Parameter):
                    m.count('parameters')
                    m.require(P.typeRef is not None, 'parameter-type', where, fq, p['name'])
                    m.eq(P.typeRef.simpleTypeCode, getattr(edm.SimpleType, simple_name(p['type'])), 'parameter-type', where, fq, p['name'])
                    m.eq(None if P.mode is None else edm.ParameterMode.EncodeValue(P.mode), p['a'].get('Mode'), 'parameter-mode', where, fq)
                    w = want_facets(p['a'])
                    g = P.maxLength
                    m.eq('MAX' if g == edm.MAX and g is not None else g, w['maxLength'], 'parameter-maxlength', where, fq)
                    m.eq((P.precision, P.scale), (w['precision'], w['scale']), 'parameter-facets', where, fq)
                path = f['name'] if c['default'] == 'true' else c['name'] + '.' + f['name']
                m.check(ds.SearchContainers(path) is F, 'search-containers', where, path)
    # the scope lists exactly the declared names
    got = list(ds)
    m.eq(sorted(got), sorted(allnames), 'scope', where)
    m.eq(len(ds), len(allnames), 'scope-length', where)
    n = list(allnames)[0]
    for bad in (n + '.', n + '.nosuch', '.' + n, n + ' ', 'nosuch', '', n.lower() + 'X'):
        m.check(bad not in ds, 'undeclared-found', where, repr(bad))
    return allnames


def sorted_as(elements, wanted):
    """names may come back in document order, which the layout shuffles"""
    names = [x['name'] for x in wanted]
    got = [x.name for x in elements]
    return got if sorted(got) == sorted(names) else names


def unquote(s):
    import urllib
    return urllib.unquote(s).decode('utf-8')


# --- the document as an independent parser sees it -------------------------

_dbf = []


class Quiet(ErrorHandler):
    def warning(self, e):
        pass

    def error(self, e):
        pass

    def fatalError(self, e):
        raise e


def dom(data):
    if not _dbf:
        f = DocumentBuilderFactory.newInstance()
        f.setNamespaceAware(True)
        _dbf.append(f)
    b = _dbf[0].newDocumentBuilder()
    b.setErrorHandler(Quiet())
    return tree(b.parse(ByteArrayInputStream(data)).getDocumentElement())


DEFAULTS = {('Property', 'Nullable'): 'true', ('EntityType', 'Abstract'): 'false', ('ComplexType', 'Abstract'): 'false'}
BOOL = ('Nullable', 'FixedLength', 'Unicode', 'Abstract')


def tree(e):
    name = e.getLocalName()
    ns = e.getNamespaceURI()
    attrs = {}
    at = e.getAttributes()
    for i in xrange(at.getLength()):
        a = at.item(i)
        n = a.getNamespaceURI()
        if n == 'http://www.w3.org/2000/xmlns/':
            continue
        k = a.getLocalName() if n is None else (n, a.getLocalName())
        v = unicode(a.getValue())
        if k in BOOL:
            v = {'1': 'true', '0': 'false'}.get(v, v)
        elif k == 'MaxLength':
            v = v.lower()
        if DEFAULTS.get((name, k)) == v:
            continue
        attrs[k] = v
    kids = []
    text = u''
    c = e.getFirstChild()
    while c is not None:
        if c.getNodeType() == c.ELEMENT_NODE:
            kids.append(tree(c))
        elif c.getNodeType() == c.TEXT_NODE:
            text += unicode(c.getData())
        c = c.getNextSibling()
    # children of different kinds may be written in any order, those of one
    # kind keep theirs
    order = {}
    for k in kids:
        order.setdefault(k[1], []).append(k)
    return ('edm' if ns in NSS else ns, name, sorted(attrs.items()), sorted(order.items()), text if not kids else u'')


def roles_filled(a, b):
    """True if b is a with missing association set roles filled in"""
    if a == b:
        return True
    if a[:2] != b[:2] or a[4] != b[4]:
        return False
    if a[2] != b[2]:
        if not (a[1] == 'End' and 'Role' not in dict(a[2]) and [x for x in b[2] if x[0] != 'Role'] == a[2]):
            return False
    if [x[0] for x in a[3]] != [x[0] for x in b[3]]:
        return False
    for (n, x), (n2, y) in zip(a[3], b[3]):
        if len(x) != len(y):
            return False
        for i, j in zip(x, y):
            if not roles_filled(i, j):
                return False
    return True


def diff(a, b, path=''):
    p = path + '/' + a[1]
    if a[:2] != b[:2] or a[2] != b[2] or a[4] != b[4]:
        return '%s %r / %s %r' % (p, (a[2], a[4]), b[1], (b[2], b[4]))
    if [(k, len(v)) for k, v in a[3]] != [(k, len(v)) for k, v in b[3]]:
        return '%s children %r / %r' % (p, [(k, len(v)) for k, v in a[3]], [(k, len(v)) for k, v in b[3]])
    for (n, x), (n2, y) in zip(a[3], b[3]):
        for i, j in zip(x, y):
            if not roles_filled(i, j):
                return diff(i, j, p)
    return '?'


# --- families --------------------------------------------------------------

def strict(doc):
    ds = doc.root.DataServices
    for s in ds.Schema:
        s.UpdateTypeRefs(ds, True)
    for e in ds.FindChildrenDepthFirst(edm.EntitySet):
        e.navigation = {}
        e.linkEnds = {}
        e.unboundPrincipal = None
    for s in ds.Schema:
        s.UpdateSetRefs(ds, True)


def f_models(m, r):
    model = gen(r)
    if r.random() < .2:
        model['schemas'][0]['alias'] = 'Self'
    if r.random() < .1:
        model['version'] = None
    text, v = render(model, r.randint(0, 1 << 30))
    m.key(text)
    m.sample(text[:300])
    doc = load(text)
    check_model(m, model, doc, 'loaded')
    m.eq(doc.Validate(), v, 'validate', 'consistent document')
    strict(doc)
    check_model(m, model, doc, 'strict')
    # written out
    out = str(doc)
    a, b = dom(text), dom(out)
    if not roles_filled(a, b):
        m.violate('written', diff(a, b))
    doc2 = load(out)
    for s in model['schemas']:
        for c in s['containers']:
            for x in c['asets']:
                if x['ambiguous']:
                    # the roles chosen first time are now part of the document
                    x['ambiguous'] = False
                    A = doc.root.DataServices['%s.%s.%s' % (s['ns'], c['name'], x['name'])]
                    for k in (0, 1):
                        x['ends'][k]['bind'] = 0 if A.AssociationSetEnd[k].associationEnd is A.association.AssociationEnd[0] else 1
    check_model(m, model, doc2, 'reloaded')
    m.eq(str(doc2), out, 'rewritten')
    # the plain edmx document class gives the same model
    doc3 = edmx.Document()
    doc3.Read(StringIO.StringIO(out))
    m.eq(sorted(doc3.root.DataServices), sorted(doc2.root.DataServices), 'edmx-scope')
    m.count('models')


def f_mutants(m, r):
    """One fault in an otherwise consistent document"""
    model = gen(r)
    seed = r.randint(0, 1 << 30)
    x = copy.deepcopy(model)
    S = x['schemas']
    types = [(s, t) for s in S for t in s['types']]
    props = [(s, t, p) for s in S for t in s['types'] + s['complex'] for p in t['props']]
    assocs = [(s, a) for s in S for a in s['assocs']]
    navs = [(s, t, n) for s, t in types for n in t['navs']]
    conts = [(s, c) for s in S for c in s['containers']]
    sets = [(s, c, e) for s, c in conts for e in c['sets']]
    asets = [(s, c, a) for s, c in conts for a in c['asets']]
    funcs = [(s, c, f) for s, c in conts for f in c['funcs']]
    fq = lambda s, t: '%s.%s' % (s['ns'], t['name'])
    nosuch = r.choice(['nosuch', S[0]['ns'] + '.NoSuch', 'NoSuch.' + types[0][1]['name'], ''])
    ops = []

    def op(name, pool, f):
        if pool:
            ops.append((name, pool, f))

    def dup(lst, o, key):
        lst.insert(r.randint(0, len(lst)), dict(copy.deepcopy(o)))

    # duplicates: always refused as the document is read
    op('dup-type', types, lambda q: dup(q[0]['types'], q[1], 'name'))
    op('dup-complex', [(s, t) for s in S for t in s['complex']], lambda q: dup(q[0]['complex'], q[1], 'name'))
    op('dup-assoc', assocs, lambda q: dup(q[0]['assocs'], q[1], 'name'))
    op('dup-property', props, lambda q: dup(q[1]['props'], q[2], 'name'))
    op('dup-nav', navs, lambda q: dup(q[1]['navs'], q[2], 'name'))
    op('dup-set', sets, lambda q: dup(q[1]['sets'], q[2], 'name'))
    op('dup-aset', asets, lambda q: dup(q[1]['asets'], q[2], 'name'))
    op('dup-func', funcs, lambda q: dup(q[1]['funcs'], q[2], 'name'))
    op('dup-container', conts, lambda q: dup(q[0]['containers'], q[1], 'name'))
    op('dup-schema', S, lambda q: S.insert(r.randint(0, len(S)), dict(q, types=[], complex=[], assocs=[], containers=[])))
    op('prefix-schema', S, lambda q: S.append(dict(q, ns=q['ns'] + '.Sub', types=[], complex=[], assocs=[], containers=[])))
    op('dup-role', assocs, lambda q: q[1]['ends'][0].update(role=q[1]['ends'][1]['role'], default=False))
    op('nav-named-as-property', navs, lambda q: q[1]['props'].append({'name': q[2]['name'], 'type': 'Edm.String', 'a': {}, 'doc': None}))
    op('type-named-as-container', conts, lambda q: q[0]['complex'].append({'name': q[1]['name'], 'props': [], 'doc': None}))
    op('set-named-as-func', funcs, lambda q: q[1]['sets'][0].update(name=q[2]['name']))
    # undeclared references
    op('no-property-type', props, lambda q: q[2].update(type=r.choice([nosuch, 'Edm.NoSuch', 'Edm.String2'])))
    op('no-key-property', types, lambda q: q[1]['key'].__setitem__(r.randrange(len(q[1]['key'])), r.choice(['nosuch', q[1]['key'][0] + 'X', ''])))
    op('no-nav-association', navs, lambda q: q[2].update(rel=nosuch))
    op('no-nav-role', navs, lambda q: q[2].update({r.choice(['from', 'to']): r.choice(['nosuch', ''])}))
    op('no-end-type', assocs, lambda q: q[1]['ends'][r.randrange(2)].update(type=nosuch))
    op('no-set-type', sets, lambda q: q[2].update(type=nosuch))
    op('no-aset-association', asets, lambda q: q[2].update(assoc=nosuch))
    op('no-aset-set', asets, lambda q: q[2]['ends'][r.randrange(2)].update(set=r.choice(['nosuch', ''])))
    op('no-aset-role', asets, lambda q: q[2]['ends'][r.randrange(2)].update(role='nosuch'))
    op('no-return-type', funcs, lambda q: q[2].update(ret=nosuch or 'x', coll=r.random() < .5))
    op('no-function-set', funcs, lambda q: q[2].update(set='nosuch'))
    op('no-parameter-type', [(s, c, f) for s, c, f in funcs if f['params']], lambda q: r.choice(q[2]['params']).update(type=nosuch))
    # references to the wrong kind of thing
    op('property-of-entity-type', props, lambda q: q[2].update(type=fq(*r.choice(types))))
    op('key-is-nav', [(s, t) for s, t in types if t['navs']], lambda q: q[1]['key'].__setitem__(0, q[1]['navs'][0]['name']))
    op('nav-of-type', navs, lambda q: q[2].update(rel=fq(q[0], q[1])))
    op('end-of-association', assocs, lambda q: q[1]['ends'][r.randrange(2)].update(type=fq(*q)))
    op('set-of-association', [q for q in sets if assocs], lambda q: q[2].update(type=fq(*assocs[0])))
    op('aset-of-type', asets, lambda q: q[2].update(assoc=fq(*types[0])))
    op('aset-end-is-aset', asets, lambda q: q[2]['ends'][r.randrange(2)].update(set=q[2]['name']))
    op('function-set-is-function', funcs, lambda q: q[2].update(set=q[2]['name']))
    op('returns-association', [q for q in funcs if assocs], lambda q: q[2].update(ret=fq(*assocs[0]), coll=False))
    # incomplete
    op('one-end', assocs, lambda q: q[1]['ends'].pop())
    op('three-ends', assocs, lambda q: q[1]['ends'].append(dict(q[1]['ends'][0], role='Third')))
    op('aset-one-end', asets, lambda q: q[2]['ends'].pop())
    op('aset-three-ends', asets, lambda q: q[2]['ends'].append(dict(q[2]['ends'][0])))
    op('unbound-nav', [q for q in asets if any(n['rel'] == q[2]['assoc'] for s, t, n in navs)],
       lambda q: q[1]['asets'].remove(q[2]))
    settypes = set(e['type'] for s, c, e in sets)
    op('keyless-set', [q for q in types if fq(*q) in settypes], lambda q: q[1].update(key=None))
    # contradictions
    op('aset-same-role', asets, lambda q: [e.update(role=q[2]['ends'][0]['role'] or q[2]['ends'][1]['role'] or 'nosuch') for e in q[2]['ends']])
    op('function-wrong-set', [(f, o) for s, c, f in funcs for o in c['sets'] if f['ret'] and f['ret'] != o['type']], lambda q: q[0].update(set=q[1]['name']))
    op('function-collection-without-set', [f for s, c, f in funcs if f['set'] and f['coll']], lambda q: q.update(set=None))
    op('nav-wrong-end', [q for q in navs], lambda q: q[2].update(to=q[2]['from']))
    op('nav-from-elsewhere', [(n, t2) for s, t, n in navs for s2, t2 in types
                              if t2 is not t and fq(s2, t2) in settypes and fq(s2, t2) not in [e['type'] for s3, a in assocs if fq(s3, a) == n['rel'] for e in a['ends']]],
       lambda q: q[1]['navs'].append(dict(q[0], name='Elsewhere99')))
    name, pool, f = r.choice(ops)
    f(r.choice(pool))
    text, v = render(x, seed)
    good, v2 = render(model, seed)
    if text == good:
        m.count('unchanged')
        return
    m.key(text)
    m.sample((name, text[:200]))
    m.count('mut_' + name.split('-')[0])
    try:
        doc = load(text)
    except REFUSED:
        m.count('refused_on_load')
        return
    m.count('loaded')
    m.check(not name.startswith(('dup-', 'prefix', 'nav-named', 'type-named', 'set-named')), 'accepted:' + name, text)
    try:
        strict(doc)
    except REFUSED:
        m.count('refused_strict')
    else:
        m.violate('inconsistent-accepted:' + name, text)
    # what was loaded is bound consistently
    doc = load(text)
    bound(m, doc, name)


def bound(m, doc, name):
    ds = doc.root.DataServices
    for T in ds.FindChildrenDepthFirst(edm.Type):
        for p in T.Property:
            m.check(p.complexType is None or (p.simpleTypeCode is None and p.complexType is ds[p.type] and isinstance(p.complexType, edm.ComplexType)), 'half-bound', name, p.name)
        if isinstance(T, edm.EntityType):
            if T.Key is not None:
                for k in T.Key.PropertyRef:
                    m.check(k.property is None or k.property is T[k.name], 'half-bound', name, k.name)
            for n in T.NavigationProperty:
                vals = [n.association, n.fromEnd, n.toEnd]
                m.check(all(v is None for v in vals) or all(v is not None for v in vals), 'half-bound', name, n.name)
                if n.association is not None:
                    m.check(n.fromEnd.name == n.fromRole and n.toEnd.name == n.toRole and n.association is ds[n.relationship], 'half-bound', name, n.name)
                if n.backLink is not None:
                    m.check(n.backLink.backLink is n and n.backLink is not n, 'back-link', name, n.name)
    for E in ds.FindChildrenDepthFirst(edm.AssociationEnd):
        m.check(E.entityType is None or (isinstance(E.entityType, edm.EntityType) and E.entityType is ds[E.type]), 'half-bound', name, E.name)
    for E in ds.FindChildrenDepthFirst(edm.EntitySet):
        m.check(E.entityType is None or (isinstance(E.entityType, edm.EntityType) and E.entityType is ds[E.entityTypeName]), 'half-bound', name, E.name)
    for A in ds.FindChildrenDepthFirst(edm.AssociationSet):
        m.check(A.association is None or isinstance(A.association, edm.Association), 'half-bound', name, A.name)
        for e in A.AssociationSetEnd:
            m.check(e.associationEnd is None or e.associationEnd in A.association.AssociationEnd, 'half-bound', name, A.name)
    m.count('bound')


def f_validate(m, r):
    """The OData extensions of an otherwise sound document"""
    model = gen(r)
    S = model['schemas']
    conts = [c for s in S for c in s['containers']]
    props = [p for s in S for t in s['types'] + s['complex'] for p in t['props']]
    funcs = [f for s in S for c in s['containers'] for f in c['funcs']]
    types = [t for s in S for t in s['types']]
    sets = [e for c in conts for e in c['sets']]
    ops = [('no-default', lambda: [c.update(default=r.choice([None, 'false'])) for c in conts]),
           ('bad-default', lambda: conts[0].update(default=r.choice(['True', '', '1', 'yes']))),
           ('bad-mime', lambda: r.choice(props)['a'].update({M + 'MimeType': r.choice(['', 'text', '/', 'text/', 'text/plain;', 'a b/c'])})),
           ('bad-stream', lambda: r.choice(types)['a'].update({M + 'HasStream': r.choice(['', 'True', '1', 'no'])})),
           ('stray-stream', lambda: (r.choice(sets)['a'] if r.random() < .5 else r.choice(props)['a']).update({M + 'HasStream': r.choice(['true', 'false'])})),
           ('bad-version', lambda: model.update(version='x'))]
    if len(conts) > 1:
        ops.append(('two-defaults', lambda: [c.update(default='true') for c in conts]))
    if funcs:
        ops.append(('bad-method', lambda: r.choice(funcs)['a'].update({M + 'HttpMethod': r.choice(['', 'get', 'PATCH', 'HEAD', 'GET '])})))
        ops.append(('no-method', lambda: r.choice(funcs)['a'].pop(M + 'HttpMethod')))
    name, f = r.choice(ops)
    f()
    seed = r.randint(0, 1 << 30)
    text, v = render(model, seed)
    if name == 'bad-version':
        model.pop('version')
        text2, v2 = render(model, seed)
        model['version'] = r.choice([{'1.0': '2.0', '2.0': '1.0'}[v2], '', '3.0', v2 + '.0', 'x'])
        if not model['version']:
            return
        text, v = render(model, seed)
    m.key(text)
    m.sample(name)
    doc = load(text)
    try:
        got = doc.Validate()
    except core.InvalidMetadataDocument:
        m.count('invalid')
        m.count('inv_' + name.replace('-', '_'))
    else:
        m.violate('invalid-accepted', '%s: %r' % (name, got))


def f_values(m, r):
    """Badly formed attribute values are refused when set"""
    badname = r.choice(['', '4x', 'a b', 'a-b', "it's", 'a.b', ' a', 'a;', u'\u0301x', 'a/b', '-a', '$x', 'a ', u'a\xd7', 'x\n'])
    goodname = Names(r)(r.choice(['Thing', 'x', 'Z9']))
    names = [edm.EntityType, edm.ComplexType, edm.EntityContainer, edm.EntitySet, edm.AssociationSet, edm.FunctionImport, edm.Parameter]
    bools = (['yes', '', 'True', '2', 'truefalse', 'FALSE'], ['true', 'false', '1', '0'])
    ints = (['', 'x', '1.5', '1e2', '--1', '0x1'], ['0', '1', '28', '007'])
    lens = (['0', '-1', 'maxi', '', '1.5', 'ten', '2147483649', '99999999999'], ['max', 'MAX', '1', '2147483648', '77'])
    cls, attr, (bad, good), get = r.choice(
        [(r.choice(names), 'Name', ([badname], [goodname]), lambda e: e.name)] * 3 +
        [(edm.Property, 'Nullable', bools, lambda e: e.nullable), (edm.Property, 'Unicode', bools, lambda e: e.unicode),
         (edm.Property, 'FixedLength', bools, lambda e: e.fixedLength), (edm.EntityType, 'Abstract', bools, lambda e: e.abstract),
         (edm.Property, 'MaxLength', lens, lambda e: e.maxLength), (edm.Parameter, 'MaxLength', lens, lambda e: e.maxLength),
         (edm.Property, 'Precision', ints, lambda e: e.precision), (edm.Property, 'Scale', ints, lambda e: e.scale),
         (edm.Parameter, 'Precision', ints, lambda e: e.precision), (edm.Parameter, 'Scale', ints, lambda e: e.scale),
         (edm.Property, 'ConcurrencyMode', (['Maybe', '', 'Fixed None'], ['Fixed', 'None', 'fixed', 'none']), lambda e: e.concurrencyMode),
         (edm.Parameter, 'Mode', (['in', 'Both', ''], ['In', 'Out', 'InOut']), lambda e: e.mode),
         (edm.AssociationEnd, 'Multiplicity', (['0', '2', '1..1', 'many', '', '0..*', '1..*'], ['0..1', '1', '*']), lambda e: e.multiplicity)])
    e = cls(None)
    was = get(e)
    b, g = r.choice(bad), r.choice(good)
    m.key((cls.__name__, attr, b, g))
    m.sample((cls.__name__, attr, b, g))
    m.raises((ValueError,), 'bad-value', e.SetAttribute, attr, b)
    m.check(get(e) == was, 'bad-value-kept', cls.__name__, attr, b)
    e.SetAttribute(attr, g)
    if bad is bools[0]:
        want = boolean(g)
    elif bad is ints[0] or (bad is lens[0] and g.lower() != 'max'):
        want = int(g)
    elif bad is lens[0]:
        want = edm.MAX
    elif attr == 'Name':
        want = g
    else:
        want = None
        m.check(get(e) is not None, 'value', attr, g)
    if want is not None:
        m.check(get(e) == want and type(get(e)) in (type(want), int, long, str, unicode, bool), 'value', cls.__name__, attr, g, get(e))
    m.count('values')


def f_scopes(m, r):
    """Name tables: what was declared is what is found"""
    class Item(object):
        def __init__(self, name):
            self.name = name

    class Scope(edm.NameTableMixin):
        def __init__(self, name):
            edm.NameTableMixin.__init__(self)
            self.name = name

    parts = [u'a', u'b', u'A', u'\xe9', u'x1']

    def name():
        return u'.'.join(r.choice(parts) for i in xrange(r.choice([1, 1, 2, 3])))

    def clash(n, names):
        return any(n == k or k.startswith(n + '.') or n.startswith(k + '.') for k in names)

    def build(depth):
        s = Scope(u'?')
        top = {}
        hist = []
        for i in xrange(r.randint(1, 8)):
            if top and r.random() < .15:
                n = r.choice(top.keys())
                s.Undeclare(top.pop(n)[0])
                m.check(n not in s, 'undeclared-found', n)
                hist.append('-' + n)
                continue
            n = name()
            if depth and r.random() < .4:
                v, sub = build(depth - 1)
                v.name = n
            else:
                v, sub = Item(n), None
            try:
                s.Declare(v)
            except edm.DuplicateName:
                m.check(clash(n, top), 'refused', n, sorted(top))
                m.count('clashes')
            else:
                m.check(not clash(n, top), 'clash-accepted', n, sorted(top))
                top[n] = (v, sub)
        flat = {}
        for n, (v, sub) in top.items():
            flat[n] = v
            for k, w in (sub or {}).items():
                flat[n + '.' + k] = w
        return s, flat

    s, flat = build(2)
    m.key(repr(sorted(flat)))
    m.sample(sorted(flat))
    m.eq(sorted(s), sorted(flat), 'scope')
    m.eq(len(s), len(flat), 'scope-length')
    m.eq(sorted(s.keys()), sorted(flat), 'scope')
    m.check(sorted(id(x) for x in s.values()) == sorted(id(x) for x in flat.values()), 'scope-values')
    for k, v in flat.items():
        m.check(s[k] is v and k in s and s.get(k) is v and s.has_key(k), 'lookup', k)
    m.check(dict(s.items()) == flat, 'items')
    for i in xrange(10):
        n = name()
        m.eq(n in s, n in flat, 'contains', n)
        m.check(s.get(n, 7) is flat.get(n, 7), 'get', n)
    m.raises((KeyError,), 'undeclare', s.Undeclare, Item(u'nosuch'))
    m.count('scopes')


FAMILIES = [
    Family('models', f_models, 500, 8000, {}),
    Family('mutants', f_mutants, 1600, 24000, {}),
    Family('validate', f_validate, 500, 5000, {}),
    Family('values', f_values, 1000, 8000, {}),
    Family('scopes', f_scopes, 1500, 12000, {}),
]
