"""C23: names, languages, kinds and other properties of collections and texts are what was set, and nothing else changes."""
from rdflib import Graph, URIRef, BNode, Literal
from rdflib.namespace import DC, DCTERMS, RDF, RDFS, SKOS
from pyvc.goals import *
from pyvc import interp as I
from contracts.domains import *
from MyCapytain.common.constants import RDF_NAMESPACES, set_graph
from MyCapytain.common.metadata import Metadata
from MyCapytain.resources.prototypes.cts.inventory import (CtsCommentaryMetadata, CtsEditionMetadata, CtsTextMetadata, CtsTextgroupMetadata,
                                                           CtsTextInventoryMetadata, CtsTranslationMetadata, CtsWorkMetadata, PrototypeCtsCollection)
from MyCapytain.resources.prototypes.metadata import Collection, ResourceCollection
from MyCapytain.resources.prototypes.text import TextualElement
from MyCapytain.resources.prototypes.cts.text import PrototypeCtsNode, PrototypeCtsText
from MyCapytain.common.reference import Citation

M = Module("C23")
ID = Str(nonempty=True, gen=lambda rng: rng.choice(["http://a/x", "http://b/x", "urn:c", "urn:d", "urn:e"]))
PART = Str(nonempty=True, lacks=":.#@-", gen=lambda rng: rng.choice(["a", "b", "c", "d"]))
PROBE = dict(s=NODE, p=URI, o=ANYTERM)
CTS = RDF_NAMESPACES.CTS
DTS = RDF_NAMESPACES.DTS


# ---------------------------------------------------------------- names
@M.goal(of=(Collection.get_label,), graph=GRAPH, id=ID, lang=OPTLANG, o=ANYTERM)
def label(g, graph, id, lang, o):
    c = Collection(id)
    g.requires(all(isinstance(x, Literal) for x in graph.objects(c.asNode(), RDFS.label)))
    v = c.get_label(lang)
    if v is None:
        g.ensures("nothing only when there is no name", not ((c.asNode(), RDFS.label, o) in graph))
    else:
        g.ensures("a name", (c.asNode(), RDFS.label, v) in graph)
        if lang is not None and isinstance(o, Literal) and o.language == lang and (c.asNode(), RDFS.label, o) in graph:
            g.ensures("in the language when there is one", v.language == lang)


@M.goal(of=(Collection.set_label,), graph=TRIPLES, id=ID, text=TXT, lang=OPTLANG, **PROBE)
def name(g, graph, id, text, lang, s, p, o):
    c = Collection(id)
    before = (s, p, o) in graph
    c.set_label(text, lang)
    new = s == c.asNode() and (p == RDFS.label or p == SKOS.prefLabel) and o == Literal(text, lang=lang)
    g.ensures("named, and nothing else", ((s, p, o) in graph) == (before or new))


# ---------------------------------------------------------------- the only value of a property
def replaced(g, graph, c, key, new, s, p, o, before):
    if s == c.asNode() and p == key:
        g.ensures("the only value", ((s, p, o) in graph) == (o == new))
    else:
        g.ensures("nothing else changes", ((s, p, o) in graph) == before)


@M.goal(of=(Collection.version.fset,), graph=TRIPLES, id=ID, value=TXT, lang=OPTLANG, given=Bool(), **PROBE)
def version(g, graph, id, value, lang, given, s, p, o):
    c = Collection(id)
    before = (s, p, o) in graph
    new = Literal(value, lang=lang) if given else Literal(value)
    c.version = new if given else value
    replaced(g, graph, c, DTS.version, new, s, p, o, before)


@M.goal(of=(Collection.version.fget, Collection.version.fset), graph=GRAPH, id=ID, value=TXT, set_=Bool(), o=ANYTERM)
def read_version(g, graph, id, value, set_, o):
    c = Collection(id)
    if set_:
        c.version = value
        g.ensures("the version that was set", c.version == Literal(value))
    else:
        v = c.version
        g.ensures("a version when there is one", not ((c.asNode(), DTS.version, o) in graph) if v is None else (c.asNode(), DTS.version, v) in graph)


@M.goal(of=(Collection.__init__, Collection.type.fset, Collection.model.fset), graph=TRIPLES, id=ID, kind=URI, which=Choice(0, 1, 2), text=Bool(), **PROBE)
def kinds(g, graph, id, kind, which, text, s, p, o):
    before = (s, p, o) in graph
    c = Collection(id)
    if s == c.asNode() and (p == RDF.type or p == DTS.model):
        g.ensures("a collection at first", ((s, p, o) in graph) == (o == DTS.collection))
    else:
        g.ensures("making one changes nothing else", ((s, p, o) in graph) == before)
    before = (s, p, o) in graph
    given = str(kind) if text else kind
    if which == 0:
        c.type = given
        replaced(g, graph, c, RDF.type, kind, s, p, o, before)
    elif which == 1:
        c.model = given
        replaced(g, graph, c, DTS.model, kind, s, p, o, before)


@M.goal(of=(Collection.type.fget, Collection.model.fget), graph=GRAPH, id=ID, kind=URI, other=URI)
def read_kinds(g, graph, id, kind, other):
    c = Collection(id)
    g.ensures("a collection at first", c.type == DTS.collection and c.model == DTS.collection)
    c.type = kind
    c.model = other
    g.ensures("as set", c.type == kind and c.model == other)


@M.goal(of=(ResourceCollection.lang.fset, ResourceCollection.lang.fget, CtsWorkMetadata.lang.fset), graph=TRIPLES, id=ID, lang=LANG, **PROBE)
def language(g, graph, id, lang, s, p, o):
    c = ResourceCollection(id)
    before = (s, p, o) in graph
    c.lang = lang
    replaced(g, graph, c, DC.language, Literal(lang), s, p, o, before)


@M.goal(of=(ResourceCollection.lang.fset, ResourceCollection.lang.fget), graph=GRAPH, id=ID, lang=LANG)
def read_language(g, graph, id, lang):
    c = ResourceCollection(id)
    c.lang = lang
    g.ensures("as set", c.lang == lang)


# ---------------------------------------------------------------- properties of CTS
PROP = Choice("title", "label", "description", "groupname")


@M.goal(of=(PrototypeCtsCollection.set_cts_property, Collection.set_label, Metadata.add), graph=TRIPLES, id=ID, prop=PROP, value=TXT, lang=OPTLANG, given=Bool(), own=Bool(), **PROBE)
def cts_property(g, graph, id, prop, value, lang, given, own, s, p, o):
    c = CtsWorkMetadata.__new__(CtsWorkMetadata)
    PrototypeCtsCollection.__init__(c, id)
    before = (s, p, o) in graph
    new = Literal(value, lang=lang)
    if given and own:      # a literal with its language
        c.set_cts_property(prop, new)
    elif given:
        c.set_cts_property(prop, new, lang)
    else:
        c.set_cts_property(prop, value, lang)
    named = p == RDFS.label or p == SKOS.prefLabel
    added = s == c.asNode() and o == new and (p == CTS.term(prop) or (prop == "title" and named))
    g.ensures("said of it, its title also as its name, and nothing else", ((s, p, o) in graph) == (before or added))


@M.goal(of=(PrototypeCtsCollection.set_link, Metadata.add), graph=TRIPLES, id=ID, prop=URI, value=URI, text=Bool(), **PROBE)
def link(g, graph, id, prop, value, text, s, p, o):
    c = PrototypeCtsCollection(id)
    before = (s, p, o) in graph
    c.set_link(prop, str(value) if text else value)
    g.ensures("linked, and nothing else", ((s, p, o) in graph) == (before or (s == c.asNode() and p == prop and o == value)))


@M.goal(of=(PrototypeCtsCollection.get_link,), graph=GRAPH, id=ID, prop=URI, o=ANYTERM)
def read_link(g, graph, id, prop, o):
    c = PrototypeCtsCollection(id)
    g.ensures("every value", (o in c.get_link(prop)) == ((c.asNode(), prop, o) in graph))


# ---------------------------------------------------------------- texts
SETTERS = [TextualElement.set_creator, TextualElement.set_title, TextualElement.set_description, TextualElement.set_subject]
KEYS = [DC.creator, DC.title, DC.description, DC.subject]


@M.goal(of=tuple(SETTERS) + (TextualElement.__init__,), graph=TRIPLES, id=ID, which=Int(0, 3), value=OneOf(TXT, ANYTERM), lang=OPTLANG, **PROBE)
def text(g, graph, id, which, value, lang, s, p, o):
    g.requires(lang is None or not isinstance(value, (URIRef, BNode)))
    t = TextualElement(id)
    new = value if isinstance(value, (URIRef, BNode, Literal)) else Literal(value, lang=lang)
    before = (s, p, o) in graph
    if which == 0:
        t.set_creator(value, lang)
    elif which == 1:
        t.set_title(value, lang)
    elif which == 2:
        t.set_description(value, lang)
    else:
        t.set_subject(value, lang)
    key = KEYS[which]
    g.ensures("said of it, and nothing else", ((s, p, o) in graph) == (before or (s == t.metadata.asNode() and p == key and o == new)))
    g.ensures("identifier", t.id == id)


@M.goal(of=(TextualElement.get_creator, TextualElement.get_description, TextualElement.get_subject, Metadata.get_single), graph=GRAPH, node=NODE, id=ID, which=Int(0, 2), o=ANYTERM)
def read_any(g, graph, node, id, which, o):
    """In whatever language."""
    t = TextualElement(id, metadata=Metadata(node=node))
    v = [t.get_creator, t.get_description, t.get_subject][which]()
    key = [DC.creator, DC.description, DC.subject][which]
    chosen(g, graph, node, key, v, None, o)


def chosen(g, graph, node, key, v, lang, o):
    if v is None:
        g.ensures("nothing only when there is none", not ((node, key, o) in graph))
    else:
        g.ensures("a value", (node, key, v) in graph)
        if lang is not None and isinstance(o, Literal) and o.language == lang and (node, key, o) in graph:
            g.ensures("in the language when there is one", isinstance(v, Literal) and v.language == lang)


READ = dict(graph=GRAPH, node=NODE, id=ID, lang=LANG, o=ANYTERM)


@M.goal(of=(TextualElement.get_creator, Metadata.get_single), **READ)
def read_creator(g, graph, node, id, lang, o):
    t = TextualElement(id, metadata=Metadata(node=node))
    chosen(g, graph, node, DC.creator, t.get_creator(lang), lang, o)


@M.goal(of=(TextualElement.get_description, Metadata.get_single), **READ)
def read_description(g, graph, node, id, lang, o):
    t = TextualElement(id, metadata=Metadata(node=node))
    chosen(g, graph, node, DC.description, t.get_description(lang), lang, o)


@M.goal(of=(TextualElement.get_subject, Metadata.get_single), **READ)
def read_subject(g, graph, node, id, lang, o):
    t = TextualElement(id, metadata=Metadata(node=node))
    chosen(g, graph, node, DC.subject, t.get_subject(lang), lang, o)


class Single:
    """get_single, by its contract (the other readings of this file, C17): the same value whenever the same is asked."""
    def __init__(self):
        self.made = []

    def apply(self, it, args, kw):
        me, key = args[0], args[1] if len(args) > 1 else kw["key"]
        lang = args[2] if len(args) > 2 else kw.get("lang")
        for k, l, n, v in it.e.state.get("single", ()):
            if str(k) == str(key) and it.truth(it.or_identical(l, lang)) and n is me:
                return v
        v = None
        if it.e.choose(2, "single") == 0:
            v = ANYTERM.sym(it, "single_%d" % len(it.e.state.get("single", ())))
        it.e.state["single"] = it.e.state.get("single", ()) + ((key, lang, me, v),)
        return v


def single(it):
    it.contracts[Metadata.get_single] = Single()


def titled_graph(rng):
    """Titles of both vocabularies, in several languages."""
    graph = native_graph(rng)
    for n in ["http://a/x", "http://a/y", "urn:c"]:
        for _ in range(rng.randint(0, 4)):
            graph.add((URIRef(n), rng.choice([DC.title, DCTERMS.title, DCTERMS.title]), Literal(rng.choice("ab"), lang=rng.choice([None, "fr", "en"]))))
    return graph


@M.goal(of=(TextualElement.get_title,), setup=single, graph=Custom(GRAPH.sym, titled_graph), node=NODE, id=ID, lang=OPTLANG)
def read_title(g, graph, node, id, lang):
    m = Metadata(node=node)
    v = TextualElement(id, metadata=m).get_title(lang)
    first = m.get_single(DC.title, lang=lang)
    if first:
        g.ensures("the title", v == first)
    else:
        g.ensures("or the title of the other vocabulary", v == m.get_single(DCTERMS.title, lang=lang))


@M.goal(of=(ResourceCollection.get_creator, ResourceCollection.get_title, ResourceCollection.get_description, ResourceCollection.get_subject), setup=single,
        graph=GRAPH, id=ID, which=Int(0, 3), lang=OPTLANG)
def read_resource(g, graph, id, which, lang):
    c = ResourceCollection(id)
    v = [c.get_creator, c.get_title, c.get_description, c.get_subject][which](lang)
    g.ensures("what is said of it", v == c.metadata.get_single(KEYS[which], lang=lang))


@M.goal(of=(PrototypeCtsNode.get_cts_metadata,), setup=single, graph=GRAPH, node=NODE, prop=PROP, lang=OPTLANG)
def read_cts(g, graph, node, prop, lang):
    m = Metadata(node=node)
    t = PrototypeCtsText(urn="urn:cts:a:b.c.d", metadata=m)
    g.ensures("what CTS says of it", t.get_cts_metadata(prop, lang) == m.get_single(CTS.term(prop), lang=lang))


class Labels(Single):
    """get_label, by its contract (the goal `label`): the same name whenever the same is asked of the same collection."""
    def apply(self, it, args, kw):
        return Single.apply(self, it, [args[0], RDFS.label] + list(args[1:]), kw)


def names_by_contract(it):
    it.contracts[Collection.get_label] = Labels()


@M.goal(of=(CtsTextMetadata.get_creator, CtsTextMetadata.get_title, CtsTextMetadata.get_subject), setup=names_by_contract, ids=ListOf(PART, minlen=3, maxgen=3),
        which=Int(0, 2), lang=OPTLANG)
def taken(g, ids, which, lang):
    """From which of its ancestors a text takes what it is asked for."""
    group = CtsTextgroupMetadata("urn:cts:ns:" + ids[0])
    work = CtsWorkMetadata(group.id + "." + ids[1], parent=group)
    text = [CtsEditionMetadata, CtsTranslationMetadata, CtsCommentaryMetadata][which](work.id + "." + ids[2], parent=work)
    g.ensures("author", text.get_creator(lang) == group.get_label(lang))
    g.ensures("title", text.get_title(lang) == work.get_label(lang))
    g.ensures("subject", text.get_subject(lang) == text.get_label(lang))


# ---------------------------------------------------------------- reading properties of CTS
@M.goal(of=(PrototypeCtsCollection.get_cts_property, PrototypeCtsCollection.set_cts_property), bounded=True, id=ID, prop=PROP, entries=ListOf(Custom(None, lambda rng: (rng.choice(["a", "b", "c", ""]), rng.choice(["eng", "fre", "lat", None]))), maxgen=5))
def cts_properties(g, id, prop, entries):
    """Bounded: values set one after the other, in several languages."""
    set_graph(Graph())
    c = CtsWorkMetadata.__new__(CtsWorkMetadata)
    PrototypeCtsCollection.__init__(c, id)
    for text, lang in entries:
        c.set_cts_property(prop, text, lang)
    read = c.get_cts_property(prop)
    g.ensures("every language", set(read) == {lang for _, lang in entries})
    g.ensures("a value in it", all((str(v), lang) in entries and v.language == lang for lang, v in read.items()))
    for ask in ["eng", "fre", "lat"]:
        v = c.get_cts_property(prop, ask)
        if entries:
            g.ensures("one of them", (str(v), v.language) in entries and (v.language == ask or ask not in read))
        else:
            g.ensures("none", v is None)
    g.ensures("no other", c.get_cts_property("nothing") == {} and c.get_cts_property("nothing", "eng") is None)


@M.goal(of=(CtsTextMetadata.get_creator, CtsTextMetadata.get_title, CtsTextMetadata.get_subject, CtsTextMetadata.get_description), bounded=True,
        names=ListOf(TXT, minlen=4, maxgen=4), lang=LANG, ask=OPTLANG)
def derived(g, names, lang, ask):
    """Bounded: a text of a work of a textgroup."""
    set_graph(Graph())
    inventory = CtsTextInventoryMetadata("inv")
    group = CtsTextgroupMetadata("urn:cts:latinLit:phi1294", parent=inventory)
    work = CtsWorkMetadata("urn:cts:latinLit:phi1294.phi002", parent=group)
    work.lang = "lat"
    text = CtsEditionMetadata("urn:cts:latinLit:phi1294.phi002.perseus-lat2", parent=work)
    group.set_cts_property("groupname", names[0], lang)
    work.set_cts_property("title", names[1], lang)
    text.set_cts_property("label", names[2], lang)
    text.set_cts_property("description", names[3], lang)
    g.ensures("author", str(text.get_creator(ask)) == names[0])
    g.ensures("title", str(text.get_title(ask)) == names[1])
    g.ensures("subject", str(text.get_subject(ask)) == names[2])
    if ask is not None:
        g.ensures("description", str(text.get_description(ask)) == names[3])
    g.ensures("language", text.lang == work.lang and text.readable)


NAMES = ListOf(Custom(None, lambda rng: (rng.choice(["a", "b", "c d"]), rng.choice(["eng", "fre", "lat"]))), maxgen=3)


@M.goal(of=(PrototypeCtsNode.set_metadata_from_collection,), bounded=True, samples=150, groups=NAMES, titles=NAMES, labels=NAMES, descriptions=NAMES,
        scheme=Bool(), own=Bool())
def described(g, groups, titles, labels, descriptions, scheme, own):
    """Bounded: a text described with what its catalogue says of it, its work and its group."""
    set_graph(Graph())
    inventory = CtsTextInventoryMetadata("inv")
    group = CtsTextgroupMetadata("urn:cts:latinLit:phi1294", parent=inventory)
    work = CtsWorkMetadata("urn:cts:latinLit:phi1294.phi002", parent=group)
    work.lang = "lat"
    edition = CtsEditionMetadata("urn:cts:latinLit:phi1294.phi002.perseus-lat2", parent=work)
    levels = Citation(name="line", refsDecl="/l[@n='$1']")
    if scheme:
        edition.citation = levels
    for x, prop, values in ((group, "groupname", groups), (work, "title", titles), (edition, "label", labels), (edition, "description", descriptions)):
        for text, lang in values:
            x.set_cts_property(prop, text, lang)
    mine = Citation(name="own", refsDecl="/own")
    g.requires(scheme or own)
    t = PrototypeCtsText(urn="urn:cts:latinLit:phi1294.phi002.perseus-lat2", citation=mine if own else None)
    before = {(x.id, p): sorted(x.metadata.get(p)) for x in (group, work, edition) for p in (CTS.groupname, CTS.title, CTS.label, CTS.description)}
    t.set_metadata_from_collection(edition)
    for prop, key, values in (("groupname", DC.creator, groups), ("title", DC.title, titles), ("label", DC.subject, labels),
                              ("description", DC.description, descriptions)):
        want = {Literal(text, lang=lang) for text, lang in values}
        g.ensures("each property in its languages", set(t.metadata.get(CTS.term(prop))) == want)
        g.ensures("and what it stands for", set(t.metadata.get(key)) == want)
        for lang in ["eng", "fre", "lat"]:
            v = t.get_cts_metadata(prop, lang)
            g.ensures("read by language", v is None if not want else v in want and (v.language == lang or lang not in {w.language for w in want}))
    g.ensures("its own scheme, or that of the edition", t.citation is mine if own else t.citation is edition.citation)
    g.ensures("the catalogue is as it was", before == {
        (x.id, p): sorted(x.metadata.get(p)) for x in (group, work, edition) for p in (CTS.groupname, CTS.title, CTS.label, CTS.description)})
