# -*- coding: utf-8 -*-
"""Meta-data elements: abstract tokens m0..mN <-> ElementTree elements."""
import xml.etree.cElementTree as et


def _m(build):
    return build

def b_text(e): e.text = u"checked"
def b_text2(e): e.text = u"checked twice"
def b_attr(e): e.set("who", "erwin")
def b_child(e): et.SubElement(e, "comment").text = "fine"
def b_child2(e): et.SubElement(e, "comment").text = "not fine"
def b_empty_child(e): et.SubElement(e, "comment")
def b_nested(e):
    a = et.SubElement(e, "annotators"); a.set("n", "2")
    b = et.SubElement(a, "who"); b.text = u"Zo\xeb"; b.tail = u"and"
    et.SubElement(a, "who").text = u"J\xf8rgen <&\">"
def b_order(e):
    et.SubElement(e, "a").text = "1"
    et.SubElement(e, "b").text = "2"
def b_order2(e):
    et.SubElement(e, "b").text = "2"
    et.SubElement(e, "a").text = "1"
def b_unicode(e): e.text = u"caf\xe9 \u2192 \u4e2d"
def b_unicode2(e): e.text = u"caf\xe8 \u2192 \u4e2d"
def b_mixed(e):
    e.text = u"see"
    a = et.SubElement(e, "ref"); a.set("id", "7"); a.tail = u"below"
def b_mixed2(e):
    e.text = u"see"
    a = et.SubElement(e, "ref"); a.set("id", "7"); a.tail = u"above"
def b_names(e):
    # element names that the corpus format uses itself
    a = et.SubElement(e, "file"); a.set("id", "1"); a.set("format", "graphml"); a.text = "notes.txt"
    et.SubElement(e, "relation").text = "friend"
    b = et.SubElement(e, "node_pair"); b.set("from_node_id", "q"); b.set("to_node_id", "q"); b.set("relation", "equals")
def b_names2(e):
    # meta-data within meta-data
    a = et.SubElement(e, "graph_meta_data"); a.text = "old"
    b = et.SubElement(et.SubElement(e, "corpus_meta_data"), "graph_meta_data"); b.set("n", "1"); b.tail = "end"
    et.SubElement(et.SubElement(e, "graph_pair"), "node_pair")
def b_attrs2(e):
    e.set("who", "marsi"); e.set("date", "2013-01-01")

BUILD = dict(m0=lambda e: None, m1=b_text, m2=b_attr, m3=b_child, m4=b_child2, m5=b_nested, m6=b_order,
             m7=b_order2, m8=b_unicode, m9=b_unicode2, m10=b_mixed, m11=b_mixed2, m12=b_empty_child,
             m13=b_text2, m14=b_attrs2, m15=b_names, m16=b_names2)


def make_meta(tag, name):
    e = et.Element(tag)
    name, bar, who = name.partition("|")
    BUILD[name](e)
    if bar:
        et.SubElement(e, "annotator").text = who
    return e


def canon(e):
    def u(x):
        if x is None:
            return u""
        return (x if isinstance(x, unicode) else x.decode("utf-8")).strip()
    return (u(e.tag), u(e.text), tuple(sorted((u(k), u(v)) for k, v in e.attrib.items())),
            tuple((canon(c), u(c.tail)) for c in e))

_table = {}


def meta_name(e, tag):
    """token of an element ('m0' for no or empty meta-data)"""
    if e is None:
        return "m0"
    if tag not in _table:
        _table[tag] = dict((canon(make_meta(tag, n)), n) for n in BUILD)
    try:
        c = canon(e)
        if tag == "corpus_meta_data" and c[3] and c[3][-1][0][0] == "annotator" and not c[3][-1][0][2] and not c[3][-1][0][3]:
            # the annotators are told apart from the other meta-data
            return _table[tag].get(c[:3] + (c[3][:-1],), "?unknown") + "|" + (list(e)[-1].text or "")
        return _table[tag].get(c, "?unknown")
    except Exception:
        return "?unreadable"
