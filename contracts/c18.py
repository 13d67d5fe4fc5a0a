"""C18: catalogues written as XML are well formed and read back as the same catalogue."""
from lxml import etree
from rdflib import Literal, URIRef, Graph
from rdflib.namespace import DCTERMS, XSD, DC
from pyvc.goals import *
from pyvc import interp as I
from contracts.domains import *
from MyCapytain.common.constants import Mimetypes, RDF_NAMESPACES, set_graph, bind_graph, get_graph
from MyCapytain.common.utils import xml as X, expand_namespace
from MyCapytain.resources.collections import cts as C
from MyCapytain.common.utils.xml import make_xml_node
from MyCapytain.resources.collections.cts import (
    XmlCtsTextInventoryMetadata, XmlCtsTextgroupMetadata, XmlCtsWorkMetadata, XmlCtsEditionMetadata, XmlCtsTranslationMetadata,
    XmlCtsCommentaryMetadata, XmlCtsCitation)
from MyCapytain.resources.prototypes.cts.inventory import CtsTextInventoryCollection

M = Module("C18")
CTS = RDF_NAMESPACES.CTS
KINDS = {"edition": XmlCtsEditionMetadata, "translation": XmlCtsTranslationMetadata, "commentary": XmlCtsCommentaryMetadata}
WORDS = ["Epigrammata", "a & b", "<x>", "l'eau", 'the "Iliad"', "é", "1", "2.5", "a  b", "x\ny", "true", "]]>"]
NUMBERS = ["007", "2.50", "true", "false", "1e3", "-0", " 3"]
LANGS = ["lat", "grc", "eng", "fre"]


def gen_names(rng, least=0):
    """Texts by language, one for each language."""
    return {l: rng.choice(WORDS) for l in rng.sample(LANGS, rng.randint(least, 2))}


def gen_citation(rng):
    n = rng.randint(0, 3)
    out, scope = [], "/tei:TEI/tei:text"
    for i in range(n):
        step = rng.choice(["/tei:div[@n='?']", "//tei:l[@n='?']", "/tei:ab[@type='it'][@n='?']"])
        out.append((rng.choice(["book", "li<ne>", 'a "b"', "é & e"]), scope, step))
        scope += step
    return out


def gen_extra(rng):
    """Statements kept as structured metadata."""
    out = []
    for i in range(rng.randint(0, 3)):
        key = rng.choice([DCTERMS.creator, DCTERMS.dateCopyrighted, DC.title, URIRef("http://example.org/ns#note")])
        out.append((key, rng.choice([
            Literal(rng.choice(WORDS + NUMBERS), lang=rng.choice(LANGS)), URIRef("http://example.org/a?b=c&d=e"), URIRef("urn:cts:a:b"),
            Literal(rng.randint(-3, 12)), Literal("2012-01-02", datatype=XSD.date), Literal("plain & simple"),
            Literal("12", datatype=XSD.string), Literal(rng.choice(NUMBERS), datatype=XSD.string),
            Literal(rng.choice(["2.50", "007"]), datatype=XSD.decimal)])))
    return out


def gen_catalogue(rng):
    out = {"name": rng.choice(["inv", "urn:inv?a=1&b=2", ""]), "groups": []}
    for i in range(rng.randint(0, 2)):
        g = {"id": "urn:cts:ns:g%d" % i, "names": gen_names(rng), "extra": gen_extra(rng), "works": []}
        for j in range(rng.randint(0, 2)):
            w = {"id": g["id"] + ".w%d" % j, "lang": rng.choice(LANGS), "names": gen_names(rng), "extra": gen_extra(rng), "texts": []}
            for k in range(rng.randint(0, 3)):
                kind = rng.choice(sorted(KINDS))
                w["texts"].append({
                    "id": "%s.t%d" % (w["id"], k), "kind": kind, "lang": w["lang"] if kind == "edition" else rng.choice(LANGS),
                    "names": gen_names(rng), "descriptions": gen_names(rng), "citation": gen_citation(rng), "extra": gen_extra(rng),
                    "about": ["urn:cts:ns:about%d" % x for x in range(rng.randint(0, 2))]})
            g["works"].append(w)
        out["groups"].append(g)
    return out


def add_all(x, prop, names, extra):
    for lang, text in names.items():
        x.set_cts_property(prop, text, lang)
    for k, v in extra:
        x.metadata.add(k, v)


def build(c):
    inv = XmlCtsTextInventoryMetadata(name=c["name"])
    for g in c["groups"]:
        group = XmlCtsTextgroupMetadata(g["id"], parent=inv)
        add_all(group, "groupname", g["names"], g["extra"])
        for w in g["works"]:
            work = XmlCtsWorkMetadata(w["id"], parent=group)
            work.lang = w["lang"]
            add_all(work, "title", w["names"], w["extra"])
            for t in w["texts"]:
                text = KINDS[t["kind"]](t["id"], parent=work, lang=t["lang"])
                add_all(text, "label", t["names"], t["extra"])
                for lang, d in t["descriptions"].items():
                    text.set_cts_property("description", d, lang)
                for u in t["about"]:
                    text.set_link(CTS.about, u)
                child = None
                for label, scope, xpath in t["citation"][::-1]:
                    child = XmlCtsCitation(name=label, scope=scope, xpath=xpath, child=child)
                text.citation = child
    return inv


def names(x, prop):
    return {l: str(v) for l, v in x.get_cts_property(prop).items()}


def extra(x, keys):
    return {(k, v) for k in keys for v in x.metadata.get(k)}


def described(inv, keys):
    """The catalogue as it can be seen: texts are sorted by identifier."""
    def text(t):
        levels, c = [], t.citation
        while c is not None and c.is_set():
            levels.append((c.name, c.scope, c.xpath))
            c = c.child
        return {"id": t.id, "urn": str(t.urn), "kind": type(t), "subtype": t.subtype, "lang": t.lang, "names": names(t, "label"),
                "descriptions": names(t, "description"), "citation": levels, "about": sorted(str(u) for u in t.get_link(CTS.about)),
                "extra": extra(t, keys)}
    return [{"id": g.id, "urn": str(g.urn), "names": names(g, "groupname"), "extra": extra(g, keys),
             "works": [{"id": w.id, "urn": str(w.urn), "lang": w.lang, "names": names(w, "title"), "extra": extra(w, keys),
                        "texts": sorted((text(t) for t in w.texts.values()), key=lambda t: t["id"])} for w in g.works.values()]}
            for g in inv.textgroups.values()]


def described_alone(x, keys, whole=True):
    """One text, work or group as it can be seen."""
    if isinstance(x, XmlCtsTextgroupMetadata):
        return {"id": x.id, "urn": str(x.urn), "names": names(x, "groupname"), "extra": extra(x, keys),
                "works": [described_alone(w, keys) for w in x.works.values()]}
    if isinstance(x, XmlCtsWorkMetadata):
        return {"id": x.id, "urn": str(x.urn), "lang": x.lang, "names": names(x, "title"), "extra": extra(x, keys),
                "texts": sorted((described_alone(t, keys) for t in x.texts.values()), key=lambda t: t["id"])}
    levels, c = [], x.citation
    while c is not None and c.is_set():
        levels.append((c.name, c.scope, c.xpath))
        c = c.child
    return {"id": x.id, "urn": str(x.urn), "kind": type(x), "lang": x.lang if whole else None, "names": names(x, "label"),
            "descriptions": names(x, "description"), "citation": levels, "about": sorted(str(u) for u in x.get_link(CTS.about)),
            "extra": extra(x, keys)}


KEYS = [DCTERMS.creator, DCTERMS.dateCopyrighted, DC.title, URIRef("http://example.org/ns#note")]
CATALOGUE = Custom(None, gen_catalogue)


def fresh():
    set_graph(bind_graph())


@M.goal(of=(XmlCtsTextInventoryMetadata.parse, XmlCtsTextInventoryMetadata.__export__, XmlCtsTextgroupMetadata.parse, XmlCtsWorkMetadata.parse,
            XmlCtsCitation.ingest, XmlCtsEditionMetadata.__export__), c=CATALOGUE, full=Bool(), bounded=True, samples=200)
def catalogues(g, c, full):
    fresh()
    inv = build(c)
    keys = KEYS if full else []
    before, store = described(inv, keys), set(get_graph())
    out = inv.export(output=Mimetypes.XML.CapiTainS.CTS if full else Mimetypes.XML.CTS)
    g.ensures("writing changes nothing", set(get_graph()) == store)
    g.ensures("well formed", etree.fromstring(out) is not None)
    fresh()
    again = XmlCtsTextInventoryMetadata.parse(("<?xml version='1.0' encoding='UTF-8'?>" if len(out) % 2 else "") + out)
    g.ensures("same name", again.id == c["name"])
    g.ensures("same groups, works and texts", described(again, keys) == before)
    out2 = again.export(output=Mimetypes.XML.CapiTainS.CTS if full else Mimetypes.XML.CTS)
    fresh()
    g.ensures("and once more", described(XmlCtsTextInventoryMetadata.parse(out2), keys) == before)


@M.goal(of=(XmlCtsTextgroupMetadata.parse, XmlCtsWorkMetadata.parse, XmlCtsEditionMetadata.parse, XmlCtsTranslationMetadata.parse,
            XmlCtsCommentaryMetadata.parse, XmlCtsTextgroupMetadata.__export__, XmlCtsWorkMetadata.__export__, XmlCtsEditionMetadata.__export__),
        c=CATALOGUE, which=Int(glo=0, ghi=1000), full=Bool(), bounded=True, samples=200)
def alone(g, c, which, full):
    """Bounded: one text, work or group of a catalogue written on its own. The language of an edition is the one of its work, and
    isn't read without it."""
    fresh()
    inv = build(c)
    every = list(inv.textgroups.values())
    every += [w for x in inv.textgroups.values() for w in x.works.values()]
    every += 2 * [t for x in inv.textgroups.values() for w in x.works.values() for t in w.texts.values()]
    g.requires(len(every) > 0)
    x = every[which % len(every)]
    keys = KEYS if full else []
    whole = not isinstance(x, XmlCtsEditionMetadata)
    before, parent = described_alone(x, keys, whole), x.parent.id
    out = x.export(output=Mimetypes.XML.CapiTainS.CTS if full else Mimetypes.XML.CTS, **({"namespaces": True} if which % 2 else {}))
    root = etree.fromstring(out)
    fresh()
    again = type(x).parse(out)
    g.ensures("read back on its own", described_alone(again, keys, whole) == before)
    if isinstance(x, XmlCtsWorkMetadata):
        g.ensures("names its group", root.get("groupUrn") == parent)
    elif not isinstance(x, XmlCtsTextgroupMetadata):
        g.ensures("names its work", root.get("workUrn") == parent)


def typed(v):
    if v[0] == "typed":
        return Literal(v[1], datatype=v[2])
    if v[0] == "lang":
        return Literal(v[1], lang=v[2])
    return {"int": lambda: Literal(int(v[1]), datatype=XSD.integer), "float": lambda: Literal(float(v[1]), datatype=XSD.float),
            "link": lambda: URIRef(v[1]), "text": lambda: Literal(v[1])}[v[0]]()


def gen_statement(rng):
    kind = rng.choice(["typed", "lang", "int", "float", "link", "text"])
    word = {"int": ["3", "-12", "0"], "float": ["2.5", "-0.25", "12.0"], "link": ["http://a.b/c", "https://a.b/?c=d&e", "urn:cts:a:b.c", "hdl:1/2"],
            "text": ["plain", "a & b", "l'eau", "a  b"]}.get(kind, WORDS + NUMBERS)
    return (kind, rng.choice(word)) + {"typed": (rng.choice([XSD.string, XSD.gYear, URIRef("http://example.org/ns#t")]),),
                                      "lang": (rng.choice(LANGS),)}.get(kind, ())


def written_statement(i, v):
    node = etree.Element("{http://purl.org/dc/terms/}creator", nsmap={"dct": "http://purl.org/dc/terms/", "xsd": str(XSD), "ex": "http://example.org/ns#"})
    node.text = v[1]
    if v[0] == "lang":
        node.set("{http://www.w3.org/XML/1998/namespace}lang", v[2])
    if v[0] == "typed":
        full = str(v[2])
        short = full.replace(str(XSD), "xsd:").replace("http://example.org/ns#", "ex:")
        node.set("{http://www.w3.org/1999/02/22-rdf-syntax-ns#}datatype", short if i % 2 else full)
    return node


@M.goal(of=(C._parse_structured_metadata, expand_namespace), values=Custom(None, lambda rng: [gen_statement(rng) for i in range(rng.randint(0, 4))]),
        which=Choice("group", "work", "text"), plain=Bool(), bounded=True, samples=300)
def structured(g, values, which, plain):
    """Bounded: statements as a CapiTainS catalogue writes them, with types written in full or with a prefix of the document, read
    from text or (but for bare numbers, whose type only objectified elements know) from plain XML elements."""
    fresh()
    if plain:
        values = [v for v in values if v[0] not in ("int", "float")]
    kept = etree.Element("{http://purl.org/capitains/ns/1.0#}structured-metadata")
    for i, v in enumerate(values):
        kept.append(written_statement(i, v))
    name, cls = {"group": ("textgroup", XmlCtsTextgroupMetadata), "work": ("work", XmlCtsWorkMetadata), "text": ("edition", XmlCtsEditionMetadata)}[which]
    root = etree.Element("{http://chs.harvard.edu/xmlns/cts}" + name, urn="urn:cts:ns:g.w.t")
    root.append(kept)
    text = etree.tostring(root, encoding=str)
    x = cls.parse(etree.fromstring(text) if plain else text)
    g.ensures("each statement with its type or language", set(x.metadata.get(DCTERMS.creator)) == {typed(v) for v in values})
    others = [y for s, p, y in get_graph().triples((None, DCTERMS.creator, None)) if s != x.asNode()]
    g.ensures("of that object", others == [])


@M.goal(of=(CtsTextInventoryCollection.__export__,), a=CATALOGUE, b=CATALOGUE, etree_=Bool(), bounded=True, samples=60)
def collections(g, a, b, etree_):
    """Inventories put together: the groups of each, one after the other."""
    fresh()
    for gr in b["groups"]:
        for x in [gr] + gr["works"] + [t for w in gr["works"] for t in w["texts"]]:
            x["id"] = x["id"].replace("urn:cts:ns:g", "urn:cts:other:g")
    top = CtsTextInventoryCollection("all")
    one, two = build(dict(a, name="one")), build(dict(b, name="two"))
    one.parent = two.parent = top
    before = described(one, []) + described(two, [])
    out = top.export(output=Mimetypes.PYTHON.ETREE) if etree_ else top.export(output=Mimetypes.XML.CTS)
    fresh()
    again = XmlCtsTextInventoryMetadata.parse(out)
    g.ensures("named after the collection", again.id == "all")
    g.ensures("groups of every inventory", described(again, []) == before)


# ---------------------------------------------------------------- nodes
from xml.sax import saxutils


class Escapes(object):
    """escape(text) and quoteattr(value): some text that an XML parser reads back as the one given (assumed of the standard library)."""
    def __init__(self, name):
        self.name = name

    def apply(self, it, args, kw):
        f = it.e.uf("xml." + self.name, z3.StringSort(), z3.StringSort())
        return SStr((f(sterm(args[0])),))


def setup(it):
    for n in ("escape", "quoteattr"):
        it.contracts[getattr(saxutils, n)] = Escapes(n)
        it.e.under_contract.add("xml.sax.saxutils." + n)


def escaped(text):
    return saxutils.escape(text)


def quoted(value):
    return saxutils.quoteattr(value)


M.assumptions.append("xml.sax.saxutils.escape and quoteattr give text that an XML parser reads back as the text given; "
                     "the bounded goals parse the results with lxml")
TAGS = bind_graph()
NODES = [(CTS.work, "work"), (RDF_NAMESPACES.CAPITAINS.term("structured-metadata"), "cpt:structured-metadata")]
VALUE = Str(gen=lambda rng: rng.choice(WORDS + ["", "\n\t x"]))


@M.goal(of=(make_xml_node,), text=VALUE, inner=VALUE, a=Opt(VALUE), b=Opt(VALUE), which=Choice(0, 1), shape=Choice("complete", "open", "close"),
        setup=setup)
def nodes(g, text, inner, a, b, which, shape):
    name, tag = NODES[which]
    attributes, want = None, "<" + tag
    if a is not None:
        attributes = {"urn": a}
        want = want + " urn=" + quoted(a)
        if b is not None:
            attributes["xml:lang"] = b
            want = want + " xml:lang=" + quoted(b)
    if shape == "complete":
        out = make_xml_node(TAGS, name, attributes=attributes, text=text, innerXML=inner, complete=True)
        g.ensures("a whole node", out == want + ">" + escaped(text) + inner + "</" + tag + ">")
    elif shape == "open":
        g.ensures("an opening tag", make_xml_node(TAGS, name, attributes=attributes) == want + ">")
    else:
        g.ensures("a closing tag", make_xml_node(TAGS, name, close=True) == "</" + tag + ">")


@M.goal(of=(make_xml_node,), text=VALUE, values=Custom(None, lambda rng: {k: rng.choice(WORDS + ["", "\n\t x"]) for k in rng.sample("abcd", rng.randint(0, 3))}),
        none=Bool(), bounded=True, samples=300)
def parsed(g, text, values, none):
    fresh()
    out = make_xml_node(get_graph(), CTS.work, attributes=None if none and not values else values, text=text, innerXML="<i/>", complete=True)
    x = etree.fromstring(out)
    g.ensures("read back", x.tag == "work" and dict(x.attrib) == values and (x.text or "") == text and [i.tag for i in x] == ["i"])
    both = make_xml_node(get_graph(), CTS.work, attributes=values) + make_xml_node(get_graph(), CTS.work, close=True)
    y = etree.fromstring(both)
    g.ensures("opened and closed", y.tag == "work" and dict(y.attrib) == values and not y.text and len(y) == 0)
