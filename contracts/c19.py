"""C19: the CTS API client sends exactly the requests asked for and reads back what the server says."""
import re
import requests
from lxml import etree
from pyvc.goals import *
from pyvc import interp as I
from contracts.domains import *
from contracts.documents import Doc, ref
from contracts import c18 as C18
from MyCapytain.common.constants import Mimetypes, RDF_NAMESPACES, set_graph, bind_graph
from MyCapytain.common.reference import CtsReference, URN
from MyCapytain.retrievers.cts5 import HttpCtsRetriever
from MyCapytain.resolvers.cts.api import HttpCtsResolver
from MyCapytain.resources.texts.remote.cts import CtsText, CtsPassage, _SharedMethod

M = Module("C19")
NAME = Str(gen=lambda rng: rng.choice(["", "urn:cts:a:b.c.d", "urn:cts:a:b.c.d:1.2", "é & x"]))
LEVEL = Int(glo=-1, ghi=4)


# ---------------------------------------------------------------- requests
class Answer(object):
    """What the server answers: its text depends on the encoding it is read with."""
    def __init__(self, encoding, fails):
        self.encoding, self.fails = encoding, fails

    def raise_for_status(self):
        if self.fails:
            raise requests.HTTPError("no")

    @property
    def text(self):
        return ("text read as", self.encoding)


class Server(object):
    def __init__(self, encoding=None, fails=False):
        self.encoding, self.fails, self.log = encoding, fails, []

    def get(self, url, params=None):
        self.log.append((url, params))
        return Answer(self.encoding, self.fails)


def online(server, thunk):
    """What the thunk gives when requests.get is the server's."""
    saved = requests.get
    requests.get = server.get
    try:
        return thunk()
    finally:
        requests.get = saved


class Online(object):
    def apply(self, it, args, kw):
        it.server = args[0]
        return it.call(args[1], [])


class Get(object):
    def apply(self, it, args, kw):
        return it.call(it.getattr(it.server, "get"), args, kw)


def setup(it):
    it.contracts[online] = Online()
    it.contracts[requests.get] = Get()
    it.e.under_contract.add("requests.get")


def given(pairs):
    return {k: str(v) for k, v in pairs if v is not None}


@M.goal(of=(HttpCtsRetriever.call,), endpoint=NAME, mine=Opt(NAME), inv=Opt(NAME), urn=Opt(NAME), level=Opt(LEVEL), encoding=Opt(NAME), fails=Bool(),
        setup=setup)
def call(g, endpoint, mine, inv, urn, level, encoding, fails):
    r, s = HttpCtsRetriever(endpoint, inventory=mine), Server(encoding, fails)
    asked = {"inv": inv, "urn": urn, "level": level, "request": "X"}
    out = g.outcome(lambda: online(s, lambda: r.call(asked)))
    want = given([("inv", mine if inv is None else inv), ("urn", urn), ("level", level), ("request", "X")])
    g.ensures("one request with what is given, or else the inventory of the client", s.log == [(endpoint, want)])
    g.ensures("the parameters stay", asked == {"inv": inv, "urn": urn, "level": level, "request": "X"})
    if fails:
        g.ensures("an error of the server is an error", out == ("raise", "HTTPError"))
    else:
        g.ensures("text of the answer", out == ("ok", ("text read as", "utf-8" if encoding is None else encoding)))


REQUESTS = Choice("GetCapabilities", "GetValidReff", "GetFirstUrn", "GetPrevNextUrn", "GetLabel", "GetPassage", "GetPassagePlus")


@M.goal(of=(HttpCtsRetriever.getCapabilities, HttpCtsRetriever.getValidReff, HttpCtsRetriever.getFirstUrn, HttpCtsRetriever.getPrevNextUrn,
            HttpCtsRetriever.getLabel, HttpCtsRetriever.getPassage, HttpCtsRetriever.getPassagePlus),
        what=REQUESTS, urn=NAME, inv=Opt(NAME), n=Opt(LEVEL), setup=setup)
def requested(g, what, urn, inv, n):
    r, s = HttpCtsRetriever("http://x"), Server()
    more = []
    if what == "GetCapabilities":
        out = online(s, lambda: r.getCapabilities(inventory=inv, urn=urn))
    elif what == "GetValidReff":
        more = [("level", n)]
        out = online(s, lambda: r.getValidReff(urn, inventory=inv, level=n))
    elif what == "GetFirstUrn":
        out = online(s, lambda: r.getFirstUrn(urn, inventory=inv))
    elif what == "GetPrevNextUrn":
        out = online(s, lambda: r.getPrevNextUrn(urn, inventory=inv))
    elif what == "GetLabel":
        out = online(s, lambda: r.getLabel(urn, inventory=inv))
    elif what == "GetPassage":
        more = [("context", n)]
        out = online(s, lambda: r.getPassage(urn, inventory=inv, context=n))
    else:
        more = [("context", n)]
        out = online(s, lambda: r.getPassagePlus(urn, inventory=inv, context=n))
    g.ensures("the request of that name, with what is given", s.log == [("http://x", given([("request", what), ("urn", urn), ("inv", inv)] + more))])
    g.ensures("its answer", out == ("text read as", "utf-8"))


PARTS = ListOf(Str(nonempty=True, lacks=".-@:", gen=lambda rng: rng.choice(["1", "2", "pr", "10"])), minlen=1, maxgen=4)
REFERENCE = OneOf(Custom(lambda it, name: None, lambda rng: None), PASSAGE_TEXT)


@M.goal(of=(HttpCtsRetriever.getTextualNode, HttpCtsRetriever.getSiblings, HttpCtsRetriever.getReffs, HttpCtsRetriever.getMetadata), urn=NAME,
        reference=REFERENCE, as_object=Bool(), prevnext=Bool(), metadata=Bool(), level=Int(lo=0, ghi=3), inv=Opt(NAME), setup=setup)
def common(g, urn, reference, as_object, prevnext, metadata, level, inv):
    """The methods common to every client."""
    r, s = HttpCtsRetriever("http://x"), Server()
    given_ref = CtsReference(reference) if reference is not None and as_object else reference
    whole = urn if reference is None else urn + ":" + reference
    depth = 0 if reference is None else reference.count(".") + 1
    online(s, lambda: r.getTextualNode(urn, given_ref, prevnext=prevnext, metadata=metadata))
    g.ensures("passage", s.log == [("http://x", {"request": "GetPassagePlus" if prevnext or metadata else "GetPassage", "urn": whole})])
    online(s, lambda: r.getReffs(urn, level=level, subreference=given_ref))
    g.ensures("references, levels counted from the passage",
              s.log[1] == ("http://x", {"request": "GetValidReff", "urn": whole, "level": str(level + depth if level else 0)}))
    if reference is not None:
        online(s, lambda: r.getSiblings(urn, given_ref))
        g.ensures("siblings", s.log[2] == ("http://x", {"request": "GetPrevNextUrn", "urn": whole}))
    else:
        online(s, lambda: r.getMetadata(urn, inventory=inv))
        g.ensures("metadata", s.log[2] == ("http://x", given([("request", "GetCapabilities"), ("urn", urn), ("inv", inv)])))


@M.goal(of=(HttpCtsRetriever.getReffs, HttpCtsRetriever.getTextualNode), urn=NAME, a=PARTS, b=PARTS, as_object=Bool(), level=Int(lo=0, ghi=3), setup=setup)
def ranges(g, urn, a, b, as_object, level):
    """Passages from one reference to another, of any levels."""
    r, s = HttpCtsRetriever("http://x"), Server()
    reference = ".".join(a) + "-" + ".".join(b)
    given_ref = CtsReference(reference) if as_object else reference
    depth = min(len(a), len(b))
    online(s, lambda: r.getReffs(urn, level=level, subreference=given_ref))
    online(s, lambda: r.getTextualNode(urn, given_ref))
    g.ensures("levels counted from the highest of the two, passage as written", s.log == [
        ("http://x", {"request": "GetValidReff", "urn": urn + ":" + reference, "level": str(level + depth if level else 0)}),
        ("http://x", {"request": "GetPassage", "urn": urn + ":" + reference})])


# ---------------------------------------------------------------- reading a text of a server
LABELS = [("groupname", "eng", "Martial"), ("groupname", "fra", "Martial & fils"), ("title", "eng", "Epigrammata"), ("title", "lat", "Épigrammes"),
          ("label", "eng", "Edition of Heraeus"), ("label", "deu", "Ausgabe"), ("description", "eng", "A description"), ("description", "ita", "Una descrizione")]
XML_LANG = "{http://www.w3.org/XML/1998/namespace}lang"


DECLARATIONS = ["", "<?xml version='1.0'?>", '<?xml version="1.0" encoding="UTF-8"?>\n', "<?xml version='1.0' encoding='ISO-8859-1' standalone='yes' ?>"]


class TextServer(object):
    """A CTS server of one text, described independently of the library."""
    URN = "urn:cts:lat:a.b.c"

    def __init__(self, rng):
        self.doc = Doc(rng)
        self.rng = rng
        self.labels = rng.sample(LABELS, rng.randint(1, len(LABELS)))
        self.encoding = rng.choice([None, "utf-8"])
        self.declaration = rng.choice(DECLARATIONS)
        self.log = []

    def describe(self):
        return self.declaration + " %r %s" % (self.labels, self.doc.describe())

    # what the library calls
    def get(self, url, params=None):
        self.log.append(dict(params))
        body = getattr(self, params["request"])(params)
        ns = self.rng.choice([' xmlns:CTS="http://chs.harvard.edu/xmlns/cts"', ' xmlns:CTS="http://chs.harvard.edu/xmlns/cts" xmlns:tei="http://www.tei-c.org/ns/1.0"'])
        text = self.declaration + "<CTS:%s%s><CTS:request><CTS:requestName>%s</CTS:requestName><CTS:requestUrn>%s</CTS:requestUrn></CTS:request><CTS:reply>%s</CTS:reply></CTS:%s>" % (
            params["request"], ns, params["request"], params["urn"], body, params["request"])
        return Page(text, self.encoding)

    def reference(self, params):
        assert params["urn"].startswith(self.URN), params
        rest = params["urn"][len(self.URN):]
        assert rest == "" or rest[0] == ":", params
        return tuple(rest[1:].split(".")) if rest else ()

    def full(self, parts):
        return "<CTS:urn>%s:%s</CTS:urn>" % (self.URN, ref(parts))

    def siblings(self, parts):
        level = self.doc.refs(len(parts))
        i = level.index(parts)
        return (level[i - 1] if i else None), (level[i + 1] if i + 1 < len(level) else None)

    def below(self, parts, level):
        return [r for r in self.doc.refs(level) if r[:len(parts)] == parts] if level <= self.doc.depth else []

    # what a server answers
    def GetValidReff(self, params):
        return "<CTS:reff>%s</CTS:reff>" % "".join(self.full(r) for r in self.below(self.reference(params), int(params.get("level", 1))))

    def GetFirstUrn(self, params):
        parts = self.reference(params)
        found = self.below(parts, len(parts) + 1) if len(parts) < self.doc.depth else []
        return self.full(found[0]) if found else ""

    def GetPrevNextUrn(self, params):
        prev, next = self.siblings(self.reference(params))
        return "<CTS:prevnext><CTS:prev>%s</CTS:prev><CTS:next>%s</CTS:next></CTS:prevnext>" % (
            "" if prev is None else self.full(prev), "" if next is None else self.full(next))

    def GetLabel(self, params):
        # English is the language of names without one
        out = "".join("<CTS:%s%s>%s</CTS:%s>" % (k, "" if l == "eng" and self.rng.random() < .3 else " xml:lang='%s'" % l, v.replace("&", "&amp;"), k) for k, l, v in self.labels)
        cite = ""
        for i in range(self.doc.depth, 0, -1):
            xpath, scope = self.split(i)
            cite = "<CTS:citation label='level%d' xpath=\"%s\" scope=\"%s\">%s</CTS:citation>" % (i, xpath, scope, cite)
        return "<CTS:label>%s%s</CTS:label>" % (out, cite)

    def split(self, level):
        whole, above = self.doc.pattern(level), self.doc.pattern(level - 1)
        return whole[len(above):].replace("$%d" % level, "?"), re.sub(r"\$\d", "?", above)

    def GetPassage(self, params):
        parts = self.reference(params)
        inner = "".join("<w>%s</w> " % w.replace("&", "&amp;").replace("<", "&lt;") for w in self.doc.words(parts))
        for n, i in reversed(list(enumerate(parts))):
            inner = "<%s n='%s'>%s</%s>" % (self.doc.step(n), i, inner, self.doc.step(n))
        return "<CTS:passage><TEI xmlns='http://www.tei-c.org/ns/1.0'><text><body>%s</body></text></TEI></CTS:passage>" % inner

    def GetPassagePlus(self, params):
        return self.GetPassage(params) + self.GetLabel(params) + (self.GetPrevNextUrn(params) if self.reference(params) else "")


class Page(object):
    def __init__(self, text, encoding):
        self.text, self.encoding = text, encoding

    def raise_for_status(self):
        pass


SERVER = Custom(lambda it, name: None, lambda rng: TextServer(rng))
PICK = Custom(lambda it, name: None, lambda rng: rng.random())


def pick(items, x):
    return items[int(x * len(items))]


def joined(words):
    return " ".join(" ".join(words).split())


def read(node):
    return joined([node.export(Mimetypes.PLAINTEXT)])


def show(parts):
    return None if parts is None else ref(parts)


def labels_of(server, kind):
    return sorted((l, v) for k, l, v in server.labels if k == kind)


def known(literals):
    return sorted((str(x.language), str(x)) for x in literals)


@M.goal(of=(CtsText.getReffs, CtsText.getValidReff, CtsText.getTextualNode, CtsText.getPassagePlus, CtsText.getPrevNextUrn, CtsText.getFirstUrn,
            CtsText.firstId, CtsText.lastId, CtsText.childIds, CtsText.reffs, CtsPassage.prevId, CtsPassage.nextId, CtsPassage.siblingsId, CtsPassage.parentId,
            CtsPassage._parse, CtsPassage.childIds), bounded=True, samples=150, s=SERVER, level=Int(glo=1, ghi=3), x=PICK, y=PICK)
def texts(g, s, level, x, y):
    """Bounded: a text read from a server is the text of the server, over random documents."""
    doc = s.doc
    g.requires(level <= doc.depth)
    text = CtsText(s.URN, HttpCtsRetriever("http://server"))
    parts = pick(doc.refs(level), x)
    g.ensures("references of a level", list(online(s, lambda: text.getReffs(level))) == [ref(r) for r in doc.refs(level)])
    g.ensures("all references", list(online(s, lambda: text.reffs)) == [ref(r) for l in range(1, doc.depth + 1) for r in doc.refs(l)])
    g.ensures("deepest", list(online(s, lambda: text.getValidReff(-1))) == [ref(r) for r in doc.refs(doc.depth)])
    g.ensures("first", online(s, lambda: text.firstId) == ref(doc.refs(1)[0]))
    g.ensures("last", online(s, lambda: text.lastId) == ref(doc.refs(1)[-1]))
    g.ensures("children", list(online(s, lambda: text.childIds)) == [ref(r) for r in doc.refs(1)])
    g.ensures("siblings", online(s, lambda: text.getPrevNextUrn(ref(parts))) == tuple(show(r) for r in s.siblings(parts)))
    g.ensures("first below", online(s, lambda: text.getFirstUrn(ref(parts))) == (ref(s.below(parts, level + 1)[0]) if level < doc.depth else None))
    if level < doc.depth:
        deeper = level + 1 + int(y * (doc.depth - level))
        g.ensures("references below a passage", list(online(s, lambda: text.getValidReff(deeper, CtsReference(ref(parts))))) == [ref(r) for r in s.below(parts, deeper)])
    how = pick([ref(parts), CtsReference(ref(parts)), list(parts), URN(s.URN + ":" + ref(parts)), s.URN + ":" + ref(parts)], y)
    passage = online(s, lambda: text.getTextualNode(how))
    prev, next = s.siblings(parts)
    checked(g, s, passage, parts)
    other = pick([r for l in range(1, doc.depth + 1) for r in doc.refs(l)], y)
    how = pick([ref(other), CtsReference(ref(other)), list(other), URN(s.URN + ":" + ref(other)), s.URN + ":" + ref(other)], x)
    checked(g, s, online(s, lambda: passage.getTextualNode(how)), other)
    checked(g, s, online(s, lambda: passage.getPassagePlus(CtsReference(ref(other)))), other)
    if len(other) < doc.depth:
        deeper = len(other) + 1
        g.ensures("references below another passage", list(online(s, lambda: passage.getValidReff(deeper, CtsReference(ref(other))))) == [ref(r) for r in s.below(other, deeper)])
        for one in (ref(other), CtsReference(ref(other)), s.URN + ":" + ref(other)):
            for holder in (text, passage):
                g.ensures("first below another", online(s, lambda: holder.getFirstUrn(one)) == ref(s.below(other, deeper)[0]))
    g.ensures("export of the whole", joined([online(s, lambda: text.export(Mimetypes.PLAINTEXT))]) == joined(doc.words()) == joined([online(s, lambda: text.text)]))
    g.ensures("text of the whole", read(online(s, lambda: text.getTextualNode())) == joined(doc.words()))
    plus = online(s, lambda: text.getPassagePlus(ref(parts)))
    before = len(s.log)
    g.ensures("siblings come with the passage", online(s, lambda: plus.siblingsId) == (show(prev), show(next)) and len(s.log) == before)
    g.ensures("citation comes with the passage", [(c.name, c.refsDecl) for c in plus.citation] == [("level%d" % i, doc.pattern(i)) for i in range(1, doc.depth + 1)])
    checked(g, s, plus, parts)
    moved = online(s, lambda: passage.next)
    if next is None:
        g.ensures("nothing after the last", moved is None)
    else:
        checked(g, s, moved, next)
        checked(g, s, online(s, lambda: moved.prev), parts)
    if level < doc.depth:
        child = s.below(parts, level + 1)
        checked(g, s, online(s, lambda: passage.first), child[0])
        checked(g, s, online(s, lambda: passage.last), child[-1])
        found = online(s, lambda: list(passage.children))
        g.ensures("children of the passage", [str(c.urn) for c in found] == [s.URN + ":" + ref(r) for r in child])


def checked(g, s, passage, parts):
    prev, next = s.siblings(parts)
    g.ensures("the passage", str(passage.urn) == s.URN + ":" + ref(parts) and passage.id == ref(parts) and read(passage) == joined(s.doc.words(parts)))
    how = s.rng.randrange(3)   # which of them is asked first
    if how == 0:
        before, after = online(s, lambda: passage.prevId), online(s, lambda: passage.nextId)
    elif how == 1:
        after, before = online(s, lambda: passage.nextId), online(s, lambda: passage.prevId)
    else:
        before, after = online(s, lambda: passage.siblingsId)
    g.ensures("its siblings", (before, after) == (show(prev), show(next)) == online(s, lambda: passage.siblingsId))
    before = len(s.log)
    online(s, lambda: (passage.prevId, passage.nextId, passage.siblingsId))
    g.ensures("its siblings are not asked again", len(s.log) == before)
    g.ensures("its parent", passage.parentId == (ref(parts[:-1]) if len(parts) > 1 else None))
    g.ensures("its children", list(online(s, lambda: passage.childIds)) == ([ref(r) for r in s.below(parts, len(parts) + 1)] if len(parts) < s.doc.depth else []))
    g.ensures("its first and last", (online(s, lambda: passage.firstId), online(s, lambda: passage.lastId)) ==
              ((ref(s.below(parts, len(parts) + 1)[0]), ref(s.below(parts, len(parts) + 1)[-1])) if len(parts) < s.doc.depth else (None, None)))


@M.goal(of=(CtsText.getLabel, CtsText._parse_request, CtsText.getPassagePlus), bounded=True, samples=100, s=SERVER, x=PICK, y=PICK)
def described(g, s, x, y):
    """Bounded: names given by a server, in their languages, over random answers."""
    fresh()
    text = CtsText(s.URN, HttpCtsRetriever("http://server"))
    parts = pick(s.doc.refs(1), x)
    holder = text
    if y < .5:
        online(s, lambda: text.getLabel())
        g.ensures("citation", [(c.name, c.refsDecl) for c in text.citation] == [("level%d" % i, s.doc.pattern(i)) for i in range(1, s.doc.depth + 1)])
    else:
        holder = online(s, lambda: text.getPassagePlus(ref(parts)))
    for kind in ["groupname", "title", "label", "description"]:
        g.ensures("names given", known(holder.metadata.get(RDF_NAMESPACES.CTS.term(kind))) == labels_of(s, kind))
    for kind, get in [("groupname", holder.get_creator), ("title", holder.get_title), ("label", holder.get_subject), ("description", holder.get_description)]:
        for lang, value in labels_of(s, kind):
            g.ensures("name in a language", str(get(lang)) == value)


def fresh():
    set_graph(bind_graph())


@M.goal(of=(HttpCtsResolver.getTextualNode, HttpCtsResolver.getReffs, HttpCtsResolver.getSiblings), bounded=True, samples=100, s=SERVER, level=Int(glo=1, ghi=3),
        x=PICK, plus=Bool())
def resolved(g, s, level, x, plus):
    """Bounded: the resolver of a server reads as the text does."""
    fresh()
    doc = s.doc
    g.requires(level <= doc.depth)
    parts = pick(doc.refs(level), x)
    r = HttpCtsResolver(HttpCtsRetriever("http://server"))
    g.ensures("references", list(online(s, lambda: r.getReffs(s.URN, level=level))) == [ref(t) for t in doc.refs(level)])
    g.ensures("siblings", online(s, lambda: r.getSiblings(s.URN, ref(parts))) == tuple(show(t) for t in s.siblings(parts)))
    checked(g, s, online(s, lambda: r.getTextualNode(s.URN, ref(parts), metadata=plus, prevnext=plus)), parts)
    if level < doc.depth:
        g.ensures("references below", list(online(s, lambda: r.getReffs(s.URN, level + 1, ref(parts)))) == [ref(t) for t in s.below(parts, level + 1)])
    g.ensures("whole", read(online(s, lambda: r.getTextualNode(s.URN, metadata=plus))) == joined(doc.words()))


class CatalogueServer(object):
    def __init__(self, xml):
        self.xml, self.log = xml, []

    def get(self, url, params=None):
        self.log.append(dict(params))
        return Page(DECLARATIONS[len(self.xml) % len(DECLARATIONS)] + "<GetCapabilities xmlns='http://chs.harvard.edu/xmlns/cts'><request><requestName>GetCapabilities</requestName></request>"
                    "<reply>%s</reply></GetCapabilities>" % self.xml, "utf-8")


@M.goal(of=(HttpCtsResolver.getMetadata,), bounded=True, samples=80, c=C18.CATALOGUE, x=PICK)
def catalogue(g, c, x):
    """Bounded: the catalogue of a server and one of its members, over random catalogues."""
    fresh()
    inv = C18.build(c)
    before, xml = C18.described(inv, []), inv.export(output=Mimetypes.XML.CTS)
    fresh()
    s = CatalogueServer(xml)
    r = HttpCtsResolver(HttpCtsRetriever("http://server"))
    found = online(s, lambda: r.getMetadata())
    g.ensures("the catalogue", C18.described(found, []) == before and s.log == [{"request": "GetCapabilities"}])
    ids = [d.id for d in found.descendants]
    if ids:
        one = pick(found.descendants, x)
        fresh()
        again = online(s, lambda: r.getMetadata(one.id))
        g.ensures("the member of that identifier", again.id == one.id and type(again) is type(one)
                  and [d.id for d in again.descendants] == [d.id for d in one.descendants] and [p.id for p in again.parents] == [p.id for p in one.parents])
        g.ensures("asked for by its identifier", s.log[1] == {"request": "GetCapabilities", "urn": one.id})
