"""Shared OData harness: metadata builders and in-memory containers"""

import StringIO
import pyslet.odata2.edmx as edmx
import pyslet.odata2.csdl as edm
import pyslet.odata2.memds as memds


def edmxdoc(body, ns='V', version='2.0', attrs=''):
    return ('<?xml version="1.0" encoding="utf-8"?>'
            '<edmx:Edmx Version="1.0" xmlns:edmx="http://schemas.microsoft.com/ado/2007/06/edmx" '
            'xmlns:m="http://schemas.microsoft.com/ado/2007/08/dataservices/metadata">'
            '<edmx:DataServices m:DataServiceVersion="%s">'
            '<Schema Namespace="%s" xmlns="http://schemas.microsoft.com/ado/2006/04/edm"%s>%s</Schema>'
            '</edmx:DataServices></edmx:Edmx>' % (version, ns, attrs, body))


def load(text):
    doc = edmx.Document()
    if type(text) is unicode:
        text = text.encode('utf-8')
    doc.Read(StringIO.StringIO(text))
    return doc


def memcontainer(doc, name):
    return memds.InMemoryEntityContainer(doc.root.DataServices[name])
