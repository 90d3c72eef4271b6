"""O04 an entity collection behaves as a mapping with queries"""

import random
from lib import Family
import odm
import odw
from odw import SETS, Store
import pyslet.odata2.csdl as edm
import pyslet.odata2.core as core
import pyslet.rfc2616 as http

PROPERTY = 'O04'
_doc = []


def opener():
    # the document is loaded afresh for each container as stores bind to it
    if not _doc:
        _doc.append(odm.load(odm.edmxdoc(odw.schema())))
    c = odm.memcontainer(_doc[0], 'V.C')
    sets = _doc[0].root.DataServices['V.C']
    return lambda name: _doc[0].root.DataServices['V.C.' + name].OpenCollection()


def op_stream(s, r, name):
    """Media streams belong to their entity"""
    ck, mvs = s.pick(r, name, True)
    if ck is None or ck not in s.model[name]:
        return
    keys = SETS[name][0]
    with s.open(name) as coll:
        e = coll[odw.nkey(keys, mvs)]
        t = r.choice(['text/plain', 'application/octet-stream', 'image/png; a=b', 'text/html; charset=utf-8'])
        data = [''.join(chr(r.randrange(256)) for i in range(r.randrange(40))) for j in range(r.randrange(4))]
        s.log.append('stream %s %s' % (name, ck))
        e.SetStreamFromGenerator(http.MediaType.FromString(t), iter(data))
        s.streams[name][ck] = (t, ''.join(data))


def checkstreams(s, name):
    keys = SETS[name][0]
    with s.open(name) as coll:
        for ck, (mvs, row) in s.model[name].items():
            e = coll[odw.nkey(keys, mvs)]
            t, data = s.streams[name].get(ck, ('application/octet-stream', ''))
            got = ''.join(e.GetStreamGenerator())
            s.m.check(got == data and e.GetStreamSize() == len(data), 'stream-data', ck, got, s.ctx())
            s.m.check(e.GetStreamType() == http.MediaType.FromString(t), 'stream-type', ck, e.GetStreamType(), s.ctx())
            s.m.count('streams')


def f_histories(m, r):
    names = r.sample(sorted(SETS), r.randint(1, 3))
    s = Store(m, opener(), odw.Gen(), names, small=r.random() < 0.8)
    s.partial = True
    for i in range(r.randint(5, 30)):
        name = r.choice(names)
        ops = odw.OPS
        if SETS[name][2] and r.random() < 0.3:
            op_stream(s, r, name)
        else:
            r.choice(ops)(s, r, name)
        if r.random() < 0.3 or i == 0:
            for n in names:
                s.checkall(n)
                if SETS[n][2]:
                    checkstreams(s, n)
    for n in names:
        s.checkall(n)
        if SETS[n][2]:
            checkstreams(s, n)
    m.key(tuple(s.log))
    m.sample(s.ctx())


def f_queries(m, r):
    name = r.choice(['Items', 'Items', 'Pairs', 'Pairs', 'Names', 'Longs', 'Stamps', 'Guids', 'Decs', 'Docs'])
    s = Store(m, opener(), odw.Gen(), [name])
    n = r.choice([0, 1, 2, 5, 10, 10, 20])
    with s.open(name) as coll:
        for i in range(n):
            ck, mvs = s.pick(r, name, False)
            if ck is None or ck in s.model[name]:
                continue
            e, row = s.new(r, coll, name, mvs)
            coll.InsertEntity(e)
            s.model[name][ck] = (mvs, row)
    s.log.append('%s with %d' % (name, len(s.model[name])))
    for i in range(6):
        odw.query(s, r, name)
    m.key(tuple(s.log))
    m.sample(s.ctx())
    s.checkall(name)


FAMILIES = [
    Family('histories', f_histories, 1200, 15000, {'inserts': 4000, 'duplicates': 1000, 'updates': 1500, 'partial_updates': 600, 'deletes': 900, 'missing': 400,
                                                   'autokeys': 200, 'stale': 200, 'copies': 200, 'scribbles': 300, 'assigns': 300, 'states': 5000, 'streams': 100}),
    Family('queries', f_queries, 1200, 15000, {'queries': 6000, 'pages': 6000, 'multipage': 800, 'tokens': 1000, 'filtered': 3000, 'select_order': 1000}),
]
