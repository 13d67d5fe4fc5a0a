"""Input domains shared by several contract modules."""
import random

import z3
from rdflib import URIRef, Literal, BNode

from pyvc.goals import *
from pyvc import rdf_model
from MyCapytain.common.constants import get_graph, set_graph, bind_graph

NAMES = ["http://a/x", "http://a/xy", "http://b/x", "urn:c"]


def native_term(rng, kinds="ubl"):
    k = rng.choice(kinds)
    if k == "u":
        return URIRef(rng.choice(NAMES))
    if k == "b":
        return BNode(rng.choice(["n1", "n2"]))
    return Literal(rng.choice(["a", "b", ""]), lang=rng.choice([None, "fr", "en"]))


def native_graph(rng):
    g = bind_graph()
    for i in range(rng.randint(0, 7)):
        g.add((native_term(rng, "uub"), native_term(rng, "u"), native_term(rng)))
    set_graph(g)
    return g


GRAPH = Custom(lambda it, name: rdf_model.arbitrary_graph(it, name), native_graph)

# The same graphs, only seen through membership of triples.
TRIPLES = Custom(lambda it, name: rdf_model.any_graph(it, name), native_graph)


def sym_term(kinds):
    def sym(it, name):
        return rdf_model.arbitrary_term(it, z3.Const(name, rdf_model.TERM), kinds)
    return sym


ANYTERM = Custom(sym_term((0, 1, 2)), native_term)
NODE = Custom(sym_term((0, 1)), lambda rng: native_term(rng, "uub"))
URI = Custom(sym_term((0,)), lambda rng: native_term(rng, "u"))
LANG = Str(nonempty=True, gen=lambda rng: rng.choice(["fr", "en"]))
OPTLANG = Opt(LANG)
TXT = Str(gen=lambda rng: rng.choice(["a", "b", ""]))


# ---------------------------------------------------------------- references
def sym_references(lacks="-@", ranges=True, subs=False):
    """A list of any length of CTS references (passages, or passages and ranges, with or without subreferences)."""
    def sym(it, name):
        from MyCapytain.common.reference import CtsReference
        e = it.e
        f = e.uf(name + ".start", z3.IntSort(), z3.StringSort())
        h = e.uf(name + ".end", z3.IntSort(), z3.StringSort())
        r = e.uf(name + ".is_range", z3.IntSort(), z3.BoolSort())

        def text(t):
            for c in lacks:
                e.lack_facts[(t.get_id(), c)] = True
                e.fact(z3.Not(z3.Contains(t, z3.StringVal(c))))
            e.keep.append(t)
            e.fact(z3.Length(t) > 0)
            return SStr((t,))

        def side(t, w, has, j):
            out = text(t(j))
            if subs and e.branch(has(j)):
                return SStr(out.pieces + ("@",) + text(w(j)).pieces)
            return out
        w1, w2 = e.uf(name + ".start_sub", z3.IntSort(), z3.StringSort()), e.uf(name + ".end_sub", z3.IntSort(), z3.StringSort())
        h1, h2 = e.uf(name + ".start_has", z3.IntSort(), z3.BoolSort()), e.uf(name + ".end_has", z3.IntSort(), z3.BoolSort())

        def at(j):
            if ranges and e.branch(r(j)):
                return it.call(CtsReference, [side(f, w1, h1, j), side(h, w2, h2, j)])
            return it.call(CtsReference, [side(f, w1, h1, j)])
        return sym_list(it, name, at)
    return sym


def gen_references(ranges=True, subs=False):
    def gen(rng):
        from MyCapytain.common.reference import CtsReference
        one = lambda: rng.choice(["1", "2", "1.1", "1.2", "a.b"]) + (rng.choice(["", "@a", "@b.c", "@b[2]"]) if subs else "")
        return [CtsReference(one() + "-" + one()) if ranges and rng.random() < .3 else CtsReference(one())
                for _ in range(rng.randint(0, 4))]
    return gen


REFS = Custom(sym_references(), gen_references())
SUBREFS = Custom(sym_references(ranges=False, subs=True), gen_references(subs=True))
PASSAGE_TEXT = Str(lacks="-@", nonempty=True, gen=lambda rng: rng.choice(["1", "2", "1.1", "1.2", "a.b"]))
