"""C22: what a collection is exported as, in RDF and in the JSON of DTS, is what is said about it."""
import json
from rdflib import Graph, URIRef, BNode, Literal
from pyvc.goals import *
from pyvc import interp as I
from contracts.domains import *
from MyCapytain.common.base import Exportable
from MyCapytain.common.constants import Mimetypes, RDF_NAMESPACES, get_graph, set_graph, bind_graph
from MyCapytain.common.metadata import Metadata
from MyCapytain.common.reference import Citation, DtsCitation, DtsCitationSet
from MyCapytain.common.reference._base import BaseCitation, BaseCitationSet
from MyCapytain.common.utils import Subgraph, expand_namespace, literal_to_dict, dict_to_literal

M = Module("C22")
PROBE = dict(s=NODE, p=URI, o=ANYTERM)


@M.goal(of=(Subgraph.__init__, Subgraph.graphiter, Subgraph.add), graph=GRAPH, node=NODE, **PROBE)
def near(g, graph, node, s, p, o):
    sub = Subgraph({})
    sub.graphiter(graph, node, ascendants=0, descendants=1)
    g.ensures("what is said about the node, except of unnamed things",
              ((s, p, o) in sub.graph) == (s == node and not isinstance(o, BNode) and (s, p, o) in graph))


PREFIX = Str(lacks=":", gen=lambda rng: rng.choice(["a", "ab", "", "b"]))
ADDRESS = Str(gen=lambda rng: rng.choice(["http://a/", "a:", ""]))


@M.goal(of=(expand_namespace,), prefix=PREFIX, address=ADDRESS, default=ADDRESS,
        string=Str(gen=lambda rng: "".join(rng.choice(["a:", "ab:", "b", "x", ":"]) for _ in range(rng.randint(0, 4)))))
def prefixes(g, prefix, address, default, string):
    r = expand_namespace({None: default, prefix: address}, string)
    if string.startswith(prefix + ":"):
        g.ensures("the prefix alone is replaced", r == address + string[len(prefix) + 1:])
    else:
        g.ensures("anything else is kept", r == string)


@M.goal(of=(literal_to_dict, dict_to_literal), text=TXT, lang=OPTLANG, uri=URI, key=URI)
def values(g, text, lang, uri, key):
    for term in [Literal(text, lang=lang), uri, Literal(3)]:
        written = literal_to_dict(term)
        m = Metadata()
        m.add(key, *dict_to_literal(written if isinstance(written, dict) else {"@value": written}))
        g.ensures("reads back as the same value", list(m.get(key)) == [term])


@M.goal(of=(Subgraph.__init__, Subgraph.graphiter, Subgraph.add), graph=GRAPH, node=NODE, **PROBE)
def above(g, graph, node, s, p, o):
    sub = Subgraph({})
    sub.graphiter(graph, node, ascendants=1, descendants=0)
    g.ensures("what is said with the node, except about unnamed things",
              ((s, p, o) in sub.graph) == (o == node and not isinstance(s, BNode) and (s, p, o) in graph))


# ---------------------------------------------------------------- citation systems
LEVEL = I.Kind("Level", isinst={BaseCitation: True}, eq=lambda it, r, o: SBool(r.t == o.t) if isinstance(o, Ref) else False)
WRITTEN = I.Kind("Written", eq=lambda it, r, o: SBool(r.t == o.t) if isinstance(o, Ref) else False)
STRUCTURE, TYPE = "https://w3id.org/dts/api#citeStructure", "https://w3id.org/dts/api#citeType"


def gen_web(rng):
    n = rng.randint(1, 6)
    nodes = [URIRef("http://x.org/n%d" % i) for i in range(n)] + [BNode("b%d" % i) for i in range(rng.randint(0, 2))]
    triples = [(rng.choice(nodes), URIRef("http://x.org/p%d" % rng.randint(0, 2)), rng.choice(nodes + [Literal("l")])) for _ in range(rng.randint(0, 12))]
    tree = [(nodes[rng.randrange(i)], URIRef("http://x.org/p"), nodes[i]) for i in range(1, n)]
    return nodes[:n], triples, tree


def steps(triples, node, n, down):
    """What is said of the nodes less than n steps away (any number when n is negative), or said about them."""
    out, level, seen = set(), {node}, set()
    while n and level - seen:
        seen |= level
        found = {t for t in triples if (t[0] if down else t[2]) in level}
        out |= found
        level = {(t[2] if down else t[0]) for t in found}
        n -= 1
    return out


@M.goal(of=(Subgraph.graphiter,), bounded=True, web=Custom(None, gen_web), pick=Custom(None, lambda rng: rng.random()), n=Choice(-1, 0, 1, 2, 3), samples=300)
def reach(g, web, pick, n):
    """Bounded: what is within a number of steps of a node of a random graph (a tree when the number is limited)."""
    nodes, triples, tree = web
    node = nodes[int(pick * len(nodes))]

    def made(triples, **kw):
        graph, sub = Graph(), Subgraph({})
        for t in triples:
            graph.add(t)
        sub.graphiter(graph, node, **kw)
        return set(sub.graph)
    named = [t for t in triples if not isinstance(t[0], BNode) and not isinstance(t[2], BNode)]
    if n == -1:
        g.ensures("all below", made(triples, ascendants=0, descendants=n) == steps(triples, node, n, True))
        g.ensures("all above", made(named, ascendants=n, descendants=0) == steps(named, node, n, False))
    g.ensures("below", made(tree, ascendants=0, descendants=n) == steps(tree, node, n, True))
    g.ensures("above", made(tree, ascendants=n, descendants=0) == steps(tree, node, n, False))
    g.ensures("both", made(tree, ascendants=n, descendants=n) == steps(tree, node, n, False) | steps(tree, node, n, True))


def written(child):
    """What a nested level is written as (contract of its export)."""
    return child.export(Mimetypes.JSON.DTS.Std)


class Written(object):
    def apply(self, it, args, kw):
        return Ref(WRITTEN, it.e.uf("written", LEVEL.sort, WRITTEN.sort)(args[0].t))


def setup_levels(it):
    it.contracts[written] = Written()

    def export(it_, r):
        def run(it__, a, k):
            given = dict(k, **dict(zip(["output", "context", "namespace_manager"], a)))
            if given.get("output") != Mimetypes.JSON.DTS.Std or given.get("context", False) is not False:
                raise Unsupported("export of a nested level in another form")
            it__.e.under_contract.add("BaseCitation.export of a nested level (induction hypothesis)")
            return it__.contracts[written].apply(it__, [r], {})
        return I.Native(run)
    LEVEL.fields["export"] = export


def sym_levels(it, name):
    f = it.e.uf(name + ".at", z3.IntSort(), LEVEL.sort)
    return sym_list(it, name, lambda j: Ref(LEVEL, f(j)))


def gen_level(rng, depth):
    c = DtsCitation(rng.choice(["book", "poem", None]))
    for _ in range(rng.choice([0, 1, 1, 2]) if depth else 0):
        c.add_child(gen_level(rng, depth - 1))
    return c


LEVELS = Custom(sym_levels, lambda rng: [gen_level(rng, 2) for _ in range(rng.randint(0, 3))])
NAME = Str(gen=lambda rng: rng.choice(["book", "poem", "l"]))


def term(name):
    return get_graph().namespace_manager.qname(RDF_NAMESPACES.DTS.term(name))


@M.goal(of=(BaseCitation.__export__, Exportable.export), name=Opt(NAME), levels=LEVELS, context=Bool(), setup=setup_levels)
def level(g, name, levels, context):
    c = DtsCitation(name)
    c._children = levels
    o = c.export(Mimetypes.JSON.DTS.Std, context=context)
    g.ensures("names the level", o[term("citeType")] == name)
    if len(levels) == 0:
        g.ensures("nothing nested", len(o) == (2 if context else 1))
    else:
        g.ensures("the levels nested in it, in order", o[term("citeStructure")] == [written(c) for c in levels])
        g.ensures("and nothing else", len(o) == (3 if context else 2))
    if context:
        g.ensures("says where the terms come from", o["@context"] == {term("citeType").split(":")[0]: str(RDF_NAMESPACES.DTS)})


@M.goal(of=(BaseCitationSet.__export__, Exportable.export), levels=LEVELS, context=Bool(), setup=setup_levels)
def levels(g, levels, context):
    c = DtsCitationSet()
    c._children = levels
    o = c.export(Mimetypes.JSON.DTS.Std, context=context)
    if context:
        g.ensures("says where the terms come from", o["@context"] == {term("citeStructure").split(":")[0]: str(RDF_NAMESPACES.DTS)})
        g.ensures("every level, in order", o[term("citeStructure")] == [written(c) for c in levels])
    else:
        g.ensures("every level, in order", o == [written(c) for c in levels])


# ---------------------------------------------------------------- and read again
NESTED = I.Kind("NestedLevel", eq=lambda it, r, o: SBool(r.t == o.t) if isinstance(o, Ref) else False)


def read(resource, root):
    """The level a description of it is read as."""
    return DtsCitation.ingest(resource, root=root)


def setup_reading(it):
    real = DtsCitation.ingest.__func__

    class Ingest(object):
        def apply(self, it_, args, kw):
            if not isinstance(args[1], Ref):
                return it_.call_real(real, args, kw)
            root = args[2] if len(args) > 2 else kw.get("root")
            it_.e.under_contract.add("DtsCitation.ingest of a nested level (induction hypothesis)")
            f = it_.e.uf("level.of", NESTED.sort, z3.IntSort(), LEVEL.sort)
            return Ref(LEVEL, f(args[1].t, z3.IntVal(-1 if root is None else root.uid)))
    it.contracts[real] = Ingest()


def sym_nested(it, name):
    f = it.e.uf(name + ".at", z3.IntSort(), NESTED.sort)
    return sym_list(it, name, lambda j: Ref(NESTED, f(j)))


def gen_nested(rng, depth=2):
    out = []
    for _ in range(rng.randint(0, 2)):
        d = {}
        if rng.random() < .8:
            d[TYPE] = [{"@value": rng.choice(["book", "poem"])}]
        if depth and rng.random() < .6:
            d[STRUCTURE] = gen_nested(rng, depth - 1)
        out.append(d)
    return out


READINGS = Custom(sym_nested, gen_nested)


@M.goal(of=(DtsCitation.ingest, BaseCitation.__init__, BaseCitationSet.add_child), name=Opt(NAME), nested=READINGS, some=Bool(), rooted=Bool(), setup=setup_reading)
def read_level(g, name, nested, some, rooted):
    root = DtsCitationSet() if rooted else None
    resource = {} if name is None else {TYPE: [{"@value": name}]}
    if some:
        resource[STRUCTURE] = nested
    c = DtsCitation.ingest(resource, root=root)
    g.ensures("its name", c.name == name)
    g.ensures("the levels nested in it, in order", c.children == ([read(n, root) for n in nested] if some else []))
    g.ensures("the system it belongs to", c.is_root() if root is None else c.root is root)


@M.goal(of=(DtsCitationSet.ingest, BaseCitationSet.add_child), nested=READINGS, setup=setup_reading)
def read_levels(g, nested):
    c = DtsCitationSet.ingest(nested)
    g.ensures("every level, in order, in this system", c.children == [read(n, c) for n in nested])


# ---------------------------------------------------------------- bounded: whole exports, read by other tools and by this one
from pyld import jsonld
from rdflib.compare import isomorphic
from rdflib.namespace import DC, DCTERMS, RDF, RDFS, SKOS, XSD, NamespaceManager
from MyCapytain.resources.collections.dts import DtsCollection
from MyCapytain.resources.prototypes.cts.inventory import (CtsEditionMetadata, CtsTextgroupMetadata, CtsTextInventoryCollection, CtsTextInventoryMetadata,
                                                           CtsTranslationMetadata, CtsWorkMetadata)
from MyCapytain.resources.prototypes.metadata import Collection

HYDRA, DTS = "https://www.w3.org/ns/hydra/core#", "https://w3id.org/dts/api#"
PREDICATES = [DC.title, DCTERMS.title, DCTERMS.creator, DCTERMS.date, URIRef("http://foo.bar/x#b"), URIRef("http://foo.bar/x#c"), SKOS.altLabel,
              URIRef("http://chs.harvard.edu/xmlns/cts/title"), URIRef("http://foo.bar/y/name"), RDFS.comment]
OBJECTS = [Literal("a"), Literal("a", lang="en"), Literal("é & <b>", lang="fr"), Literal(3), Literal(True), Literal("urn:x:b"), Literal("2018-01-01", datatype=XSD.date),
           URIRef("urn:x:b"), URIRef("urn:x:c"), URIRef("http://o/1"), URIRef("http://o/2"), Literal("None")]
KINDS = [URIRef(HYDRA + "Collection"), URIRef(HYDRA + "Resource"), URIRef("http://foo.bar/t#Thing"), URIRef("http://chs.harvard.edu/xmlns/cts/work"), None]


class Shelf(object):
    """A few collections, what is said about them, and how they contain each other."""
    def __init__(self, rng):
        self.ids = ["urn:x:a", "urn:x:b", "urn:x:c", "http://x/d"][:rng.randint(1, 4)]
        self.parents = [None] + [rng.randrange(i) for i in range(1, len(self.ids))]
        self.types = [rng.choice(KINDS) for _ in self.ids]
        self.labels = [[(rng.choice(["A", "B & c", "é"]), rng.choice(["en", "fr", None])) for _ in range(rng.choice([1, 1, 2]))] for _ in self.ids]
        self.descriptions = [rng.choice([None, "D", "<é>"]) for _ in self.ids]
        self.said = [(i, rng.choice(PREDICATES), rng.choice(OBJECTS)) for i in range(len(self.ids)) for _ in range(rng.randint(0, 4))]
        self.more = [(rng.choice([URIRef("http://o/1"), URIRef("http://o/2"), BNode("n1"), BNode("n2")]), rng.choice(PREDICATES),
                      rng.choice(OBJECTS + [BNode("n1"), BNode("n2"), URIRef(self.ids[0])])) for _ in range(rng.randint(0, 4))]
        self.unnamed = [(i, rng.choice(PREDICATES), BNode(rng.choice(["n1", "n2"]))) for i in range(len(self.ids)) if rng.random() < .2]

    def describe(self):
        return dict(self.__dict__)

    def build(self):
        set_graph(bind_graph())
        made = []
        for i, n in enumerate(self.ids):
            c = Collection(n)
            if self.types[i] is not None:
                c.type = self.types[i]
            for text, lang in self.labels[i]:
                c.set_label(text, lang)
            if self.descriptions[i] is not None:
                c.graph.add((c.asNode(), URIRef(HYDRA + "description"), Literal(self.descriptions[i])))
            if self.parents[i] is not None:
                c.parent = made[self.parents[i]]
            made.append(c)
        for i, p, o in self.said + self.unnamed:
            made[i].graph.add((made[i].asNode(), p, o))
        for t in self.more:
            made[0].graph.add(t)
        return made


SHELF = Custom(None, Shelf)


def about(graph, node):
    """What is said about a node, about what it is said to be related to, and so on; and what is said with it."""
    out, todo, done = set(), [node], set()
    while todo:
        n = todo.pop()
        if n in done:
            continue
        done.add(n)
        for t in graph.triples((n, None, None)):
            out.add(t)
            todo.append(t[2])
    return out | set(graph.triples((None, None, node)))


def graph_of(triples):
    g = Graph()
    for t in triples:
        g.add(t)
    return g


@M.goal(of=(Collection.__export__, Subgraph.graphiter, Subgraph.serialize), shelf=SHELF, x=Custom(None, lambda rng: rng.random()), form=Choice("xml", "json-ld"), bounded=True, samples=400)
def rdf(g, shelf, x, form):
    """Bounded: up to four collections in a tree, forty statements, with unnamed nodes, cycles and literals spelled as identifiers."""
    made = shelf.build()
    c = made[int(x * len(made))]
    before = set(c.graph)
    out = c.export(Mimetypes.XML.RDF if form == "xml" else Mimetypes.JSON.LD)
    g.ensures("reads as what is said", isomorphic(Graph().parse(data=out, format=form), graph_of(about(c.graph, c.asNode()))))
    g.ensures("nothing is changed", set(c.graph) == before)


def value(o):
    """A value in expanded JSON-LD."""
    if isinstance(o, URIRef):
        return {"@id": str(o)}
    if o.language:
        return {"@value": str(o), "@language": o.language}
    p = o.toPython()
    return {"@value": p if isinstance(p, (bool, int)) else str(o)}


LEFT_OUT = [HYDRA, DTS, str(RDF), str(RDFS), str(RDF_NAMESPACES.CAPITAINS)]


def in_any_order(values):
    return sorted(values, key=lambda v: sorted((k, repr(w)) for k, w in v.items()))


def grouped(made, c):
    """Statements of a collection by part of the description and predicate."""
    out = {"dublincore": {}, "extensions": {}}
    for p, o in c.graph.predicate_objects(c.asNode()):
        if isinstance(o, BNode) or any(str(p).startswith(n) for n in LEFT_OUT):
            continue
        part = out["dublincore" if str(p).startswith(str(DCTERMS)) else "extensions"]
        part.setdefault(str(p), []).append(value(o))
    return {k: {p: in_any_order(v) for p, v in d.items()} for k, d in out.items()}


def summary(g, what, data, c, labels, description):
    g.ensures(what + " identifier", data["@id"] == c.id)
    g.ensures(what + " type", data["@type"] == [str(c.type)])
    g.ensures(what + " title", data[HYDRA + "title"][0]["@value"] in labels and len(data[HYDRA + "title"]) == 1)
    g.ensures(what + " size", data[HYDRA + "totalItems"] == [{"@value": len(c.members)}])
    g.ensures(what + " description", data.get(HYDRA + "description") == (None if description is None else [{"@value": description}]))


@M.goal(of=(Collection.__export__, Collection.export_base_dts), shelf=SHELF, x=Custom(None, lambda rng: rng.random()), bounded=True, samples=400)
def dts_json(g, shelf, x):
    """Bounded: up to four collections in a tree, forty statements."""
    made = shelf.build()
    k = int(x * len(made))
    c = made[k]
    before = set(c.graph)
    o = c.export(Mimetypes.JSON.DTS.Std)
    data = jsonld.expand(json.loads(json.dumps(o)))[0]
    summary(g, "its", data, c, [t for t, _ in shelf.labels[k]], shelf.descriptions[k])
    kids = [i for i, p in enumerate(shelf.parents) if p == k]
    members = data.get(HYDRA + "member", [])
    g.ensures("its members, in order", [m["@id"] for m in members] == [shelf.ids[i] for i in kids])
    for m, i in zip(members, kids):
        summary(g, "a member's", m, made[i], [t for t, _ in shelf.labels[i]], shelf.descriptions[i])
    want = grouped(made, c)
    for part in ["dublincore", "extensions"]:
        got = {p: in_any_order(v) for p, v in data.get(DTS + part, [{}])[0].items()}
        g.ensures("every other statement and no more", got == want[part])
    g.ensures("nothing else", set(data) <= {"@id", "@type", HYDRA + "title", HYDRA + "totalItems", HYDRA + "description", HYDRA + "member", DTS + "dublincore", DTS + "extensions"})
    g.ensures("nothing is changed", set(c.graph) == before)


@M.goal(of=(Collection.__export__, DtsCollection.parse), shelf=SHELF, x=Custom(None, lambda rng: rng.random()), bounded=True, samples=300)
def read_back(g, shelf, x):
    """Bounded: up to four collections in a tree, forty statements."""
    made = shelf.build()
    k = int(x * len(made))
    c = made[k]
    want = grouped(made, c)
    kids = [i for i, p in enumerate(shelf.parents) if p == k]
    o = c.export(Mimetypes.JSON.DTS.Std)
    set_graph(bind_graph())
    d = DtsCollection.parse(json.loads(json.dumps(o)))
    g.ensures("identifier, type and size", (d.id, d.type, d.size) == (c.id, c.type, len(c.members)))
    g.ensures("title", str(d.get_label()) in [t for t, _ in shelf.labels[k]])
    g.ensures("description", [str(v) for v in d.metadata.get(URIRef(HYDRA + "description"))] == [x for x in [shelf.descriptions[k]] if x is not None])
    g.ensures("members, in order", [(m.id, m.type, m.size) for m in d.members] == [(made[i].id, made[i].type, len(made[i].members)) for i in kids])
    for m, i in zip(d.members, kids):
        g.ensures("titles of the members", str(m.get_label()) in [t for t, _ in shelf.labels[i]])
    for part in want.values():
        for p, values in part.items():
            got = in_any_order([value(v) for v in d.metadata.get(URIRef(p))])
            if URIRef(p) == SKOS.prefLabel:
                g.ensures("every label", all(v in got for v in values))
            else:
                g.ensures("every statement", got == values)


def chain(names):
    c = None
    for i in reversed(range(len(names))):
        ref = "/tei:TEI" + "".join("/tei:div[@n='$%d']" % (j + 1) for j in range(i + 1))
        c = Citation(name=names[i], refsDecl=ref, child=c)
    return c


@M.goal(of=(Collection.__export__, BaseCitation.__export__, Citation.export, DtsCollection._parse_metadata), bounded=True, samples=60,
        names=Custom(None, lambda rng: [rng.choice(["book", "poem", "line"]) for _ in range(rng.randint(1, 4))]), translated=Bool())
def cts_texts(g, names, translated):
    """Bounded: editions and translations whose citations have one to four levels."""
    set_graph(bind_graph())
    inv = CtsTextInventoryCollection("urn:inv")
    empty = inv.export(Mimetypes.JSON.DTS.Std)
    g.ensures("an empty inventory has no member", empty["@id"] == "urn:inv" and empty["totalItems"] == 0 and "member" not in empty)
    group = CtsTextgroupMetadata("urn:cts:a:b", parent=CtsTextInventoryMetadata("urn:d", parent=inv))
    work = CtsWorkMetadata("urn:cts:a:b.c", parent=group)
    work.lang = "lat"
    group.set_cts_property("groupname", "G", "eng")
    work.set_cts_property("title", "W", "eng")
    text = (CtsTranslationMetadata if translated else CtsEditionMetadata)("urn:cts:a:b.c.d", parent=work, lang="eng" if translated else None)
    text.set_cts_property("label", "L", "eng")
    text.citation = chain(names)
    told = [x.export(Mimetypes.JSON.DTS.Std) for x in [text, work, group]]
    types = [x.type for x in [text, work, group]]
    g.ensures("how many levels it has", jsonld.expand(json.loads(json.dumps(told[0])))[0][DTS + "citeDepth"] == [{"@value": len(names)}])
    set_graph(bind_graph())
    t, w, gr = [DtsCollection.parse(json.loads(json.dumps(o))) for o in told]
    g.ensures("what they are", [x.type for x in [t, w, gr]] == types and types[2] == RDF_NAMESPACES.CTS.term("textgroup"))
    g.ensures("their titles", [str(x.get_label()) for x in [t, w, gr]] == ["L", "W", "G"])
    g.ensures("their members", [[m.id for m in x.members] for x in [t, w, gr]] == [[], ["urn:cts:a:b.c.d"], ["urn:cts:a:b.c"]])
    g.ensures("language", [str(v) for v in t.metadata.get(DC.language)] == ["eng" if translated else "lat"])
    g.ensures("the levels of its citation", [c.name for c in t.citation] == names and t.citation.depth == len(names))


@M.goal(of=(CtsTextInventoryCollection.__export__, Collection.__export__), bounded=True, samples=60,
        names=Custom(None, lambda rng: rng.sample(["urn:d", "urn:e", "http://x/f"], rng.randint(0, 3))), groups=ListOf(Int(glo=0, ghi=2), minlen=3, maxgen=3))
def inventories(g, names, groups):
    """Bounded: up to three inventories of up to two text groups in a catalogue."""
    set_graph(bind_graph())
    top = CtsTextInventoryCollection("urn:inv")
    top.set_label("Everything", "eng")
    made = []
    for i, name in enumerate(names):
        inv = CtsTextInventoryMetadata(name, parent=top)
        inv.set_label("Label " + name, "eng")
        for k in range(groups[i]):
            CtsTextgroupMetadata("urn:cts:a:g%d%d" % (i, k), parent=inv).set_cts_property("groupname", "G", "eng")
        made.append(inv)
    out = top.export(Mimetypes.JSON.DTS.Std)
    if len(made) == 1:
        out, top = [out], [made[0]]
        g.ensures("the only inventory stands for the catalogue", out[0] == made[0].export(Mimetypes.JSON.DTS.Std))
    else:
        out, top = [out, ] + [i.export(Mimetypes.JSON.DTS.Std) for i in made], [top] + made
    for o, c in zip(out, top):
        g.ensures("identifier, title and size", (o["@id"], o["title"], o["totalItems"]) == (c.id, str(c.get_label()), len(c.members)))
        g.ensures("members, in order", [(m["@id"], m["title"], m["totalItems"]) for m in o.get("member", [])] == [(m.id, str(m.get_label()), len(m.members)) for m in c.members])


@M.goal(of=(DtsCitationSet.ingest, DtsCitation.ingest, BaseCitationSet.__export__), bounded=True, samples=200,
        trees=Custom(None, lambda rng: [gen_level(rng, 3) for _ in range(rng.randint(1, 3))]))
def citations_read_back(g, trees):
    """Bounded: citation systems of up to three trees, four levels and two levels nested in each."""
    s = DtsCitationSet()
    for t in trees:
        s.add_child(t)
    out = json.loads(json.dumps(s.export(Mimetypes.JSON.DTS.Std, context=True)))
    back = DtsCitationSet.ingest(jsonld.expand(out)[0][STRUCTURE])

    def shape(c):
        return [(d.name, shape(d)) for d in c.children]
    g.ensures("the same levels, nested alike", shape(back) == shape(s))
    g.ensures("the same depth and number", (back.depth, len(back)) == (s.depth, len(s)))
    g.ensures("all of one system", all(c.root is back for c in back))
    manager = NamespaceManager(Graph())
    manager.bind("own", URIRef(DTS))
    for x in [s] + list(s):
        plain, full = x.export(Mimetypes.JSON.DTS.Std), x.export(Mimetypes.JSON.DTS.Std, context=True, namespace_manager=manager)
        g.ensures("its context only when asked", "@context" not in plain and full.pop("@context") == {"own": DTS})
        g.ensures("the prefixes of the manager given", all(k.startswith("own:") for k in full) and len(full) > 0)
