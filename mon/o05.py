"""O05 navigation links stay symmetric and respect multiplicity"""

from lib import Family
import odm
import odl
import pyslet.odata2.csdl as edm

PROPERTY = 'O05'


def f_histories(m, r):
    sets, assocs = odl.rschema(r)
    doc = odm.load(odm.edmxdoc(odl.xml(sets, assocs)))
    odm.memcontainer(doc, 'V.C')
    w = odl.World(m, sets, assocs, lambda name: doc.root.DataServices['V.C.' + name].OpenCollection())
    odl.history(m, r, w, r.randint(5, 25))


FAMILIES = [
    Family('histories', f_histories, 3000, 40000, {}),
]
