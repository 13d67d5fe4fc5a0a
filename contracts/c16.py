"""C16: the metadata store: set, add, get, remove follow set semantics on (node, key) and touch nothing else."""
from pyvc.goals import *
from contracts.domains import *
from MyCapytain.common.metadata import Metadata
from rdflib import URIRef, Literal, BNode

M = Module("C16")
VALUE = OneOf(TXT, ANYTERM)
PROBE = dict(s=NODE, p=URI, o=ANYTERM)


def as_term(value, lang):
    """What is stored: terms as they are, anything else as a literal in the given language."""
    if isinstance(value, (URIRef, BNode, Literal)):
        return value
    return Literal(value, lang=lang)


@M.goal(of=Metadata.add, graph=GRAPH, node=NODE, key=URI, value=VALUE, lang=OPTLANG, **PROBE)
def add(g, graph, node, key, value, lang, s, p, o):
    g.requires(lang is None or not isinstance(value, (URIRef, BNode)))
    new = as_term(value, lang)
    before = (s, p, o) in graph
    m = Metadata(node=node)
    m.add(key, value, lang=lang)
    is_new = s == node and p == key and o == new
    g.ensures("adds exactly this triple", ((s, p, o) in graph) == (before or is_new))
    g.ensures("node", m.asNode() == node)


@M.goal(of=Metadata.set, graph=GRAPH, node=NODE, key=URI, value=VALUE, lang=OPTLANG, **PROBE)
def set_(g, graph, node, key, value, lang, s, p, o):
    g.requires(lang is None or not isinstance(value, (URIRef, BNode)))
    new = as_term(value, lang)
    before = (s, p, o) in graph
    m = Metadata(node=node)
    m.set(key, value, lang=lang)
    if s == node and p == key:
        g.ensures("the only value of the key", ((s, p, o) in graph) == (o == new))
    else:
        g.ensures("nothing else changes", ((s, p, o) in graph) == before)


@M.goal(of=Metadata.remove, graph=GRAPH, node=NODE, pred=Opt(URI), obj=Opt(ANYTERM), **PROBE)
def remove(g, graph, node, pred, obj, s, p, o):
    before = (s, p, o) in graph
    Metadata(node=node).remove(pred, obj)
    hit = s == node and (pred is None or p == pred) and (obj is None or o == obj)
    g.ensures("removes exactly the matching triples", ((s, p, o) in graph) == (before and not hit))


@M.goal(of=Metadata.unlink, graph=GRAPH, node=NODE, subj=Opt(NODE), pred=Opt(URI), **PROBE)
def unlink(g, graph, node, subj, pred, s, p, o):
    before = (s, p, o) in graph
    Metadata(node=node).unlink(subj, pred)
    hit = o == node and (pred is None or p == pred) and (subj is None or s == subj)
    g.ensures("removes exactly the matching links", ((s, p, o) in graph) == (before and not hit))


@M.goal(of=(Metadata.get, Metadata.__getitem__), graph=GRAPH, node=NODE, key=URI, lang=LANG, o=ANYTERM)
def get(g, graph, node, key, lang, o):
    m = Metadata(node=node)
    stored = (node, key, o) in graph
    g.ensures("all values", (o in list(m.get(key))) == stored)
    g.ensures("same by subscript", (o in m[key]) == stored)
    in_lang = isinstance(o, Literal) and o.language == lang
    g.ensures("values in a language", (o in list(m.get(key, lang=lang))) == (stored and in_lang))
    g.ensures("reading changes nothing", ((node, key, o) in graph) == stored)


@M.goal(of=(Metadata.get_single, Metadata.__getitem__), graph=GRAPH, node=NODE, key=URI, lang=OPTLANG, o=ANYTERM, samples=4000)
def get_single(g, graph, node, key, lang, o):
    m = Metadata(node=node)
    v = m.get_single(key, lang=lang)
    if v is None:
        g.ensures("nothing only when nothing is stored", not ((node, key, o) in graph))
    else:
        g.ensures("a stored value", (node, key, v) in graph)
        if lang is not None and isinstance(o, Literal) and o.language == lang and (node, key, o) in graph:
            g.ensures("in the language when there is one", isinstance(v, Literal) and v.language == lang)


@M.goal(of=(Metadata.get_single, Metadata.__getitem__), graph=GRAPH, node=NODE, key=URI, lang=LANG)
def get_single_in_language(g, graph, node, key, lang):
    m = Metadata(node=node)
    g.ensures("same by subscript", m[key, lang] == m.get_single(key, lang=lang))


@M.goal(of=(Metadata.get_single, Metadata.__getitem__), graph=GRAPH, node=NODE, key=URI)
def get_single_any_language(g, graph, node, key):
    m = Metadata(node=node)
    v = m.get_single(key)
    g.ensures("same by subscript", m[key, None] == v)
    g.ensures("key given as text", m.get_single(str(key)) == v)


@M.goal(of=Metadata.getOr, graph=GRAPH, node=NODE, key=URI, other=NODE)
def get_or(g, graph, node, key, other):
    m = Metadata.getOr(node, key, node=other)
    if (node, key, None) in graph:
        g.ensures("the stored node", (node, key, m.asNode()) in graph)
    else:
        g.ensures("the given node", m.asNode() == other)


def names_of(rng):
    return [rng.choice([URIRef(n) for n in NAMES] + [URIRef("http://a/"), URIRef("http://b/")]) for _ in range(rng.randint(1, 3))]


def in_terms(p, terms):
    return p in terms or any(str(t) == str(p).rsplit("/", 1)[0] + "/" for t in terms)


BOUND = dict(bounded=True, samples=400)


@M.goal(of=Metadata.__export__, graph=GRAPH, node=NODE, mode=Choice("all", "only", "exclude"), terms=Custom(None, names_of),
        fmt=Choice("xml", "json-ld"), **BOUND)
def export_rdf(g, graph, node, mode, terms, fmt):
    from rdflib import Graph
    from MyCapytain.common.constants import Mimetypes
    before = set(graph)
    g.requires(fmt == "xml" or isinstance(node, URIRef))
    wanted = {t for t in before if t[0] == node and (
        mode == "all" or in_terms(t[1], terms) == (mode == "only"))}
    given = list(terms)
    kw = {} if mode == "all" else {mode: terms}
    text = Metadata(node=node).export(Mimetypes.XML.RDF if fmt == "xml" else Mimetypes.JSON.LD, **kw)
    back = Graph().parse(data=text, format=fmt)
    norm = lambda ts: sorted((("_" if isinstance(s, BNode) else str(s)), str(p), "_" if isinstance(o, BNode) else o.n3()) for s, p, o in ts)
    g.ensures("exactly the selected statements of the node", norm(back) == norm(wanted))
    g.ensures("store untouched", set(graph) == before)
    g.ensures("arguments untouched", terms == given)


@M.goal(of=Metadata.__export__, graph=GRAPH, node=NODE, mode=Choice("all", "only", "exclude"), terms=Custom(None, names_of),
        key=URI, more=ListOf(Custom(None, lambda rng: (rng.choice(["a", "b", "Two words", "z"]), rng.choice(["fr", "en", None]))), maxgen=5), **BOUND)
def export_json(g, graph, node, mode, terms, key, more):
    from MyCapytain.common.constants import Mimetypes
    for text, lang in more:
        graph.add((node, key, Literal(text, lang=lang)))
    wanted = {t for t in graph if t[0] == node and (mode == "all" or in_terms(t[1], terms) == (mode == "only"))}
    kw = {} if mode == "all" else {mode: terms}
    out = Metadata(node=node).export(Mimetypes.JSON.Std, **kw)
    g.ensures("keys", set(out) == {str(p) for _, p, _ in wanted})
    for key, langs in out.items():
        literals = [o for _, p, o in wanted if str(p) == key and isinstance(o, Literal)]
        g.ensures("languages", set(langs) == {o.language for o in literals})
        for lang, v in langs.items():
            v = v if isinstance(v, list) else [v]
            g.ensures("values", sorted(x.lower() for x in v) == sorted(str(o).lower() for o in literals if o.language == lang))


@M.goal(of=Metadata.__export__, graph=GRAPH, node=NODE, **BOUND)
def export_cts(g, graph, node):
    from lxml import etree
    from MyCapytain.common.constants import Mimetypes
    text = Metadata(node=node).export(Mimetypes.XML.CapiTainS.CTS)
    wanted = [(p, o) for _, p, o in graph.triples((node, None, None))]
    ns = " ".join('xmlns:%s="%s"' % (p, u) for p, u in graph.namespaces() if p)
    nodes = etree.fromstring("<r %s>%s</r>" % (ns, text))
    got = [("{%s}" % etree.QName(n).namespace + etree.QName(n).localname, n.text or "",
            n.get("{http://www.w3.org/XML/1998/namespace}lang")) for n in nodes]
    exp = []
    for p, o in wanted:
        _, n, name = graph.compute_qname(p)
        exp.append(("{%s}%s" % (n, name), str(o), getattr(o, "language", None)))
    g.ensures("one element per statement", sorted(got, key=repr) == sorted(exp, key=repr))
