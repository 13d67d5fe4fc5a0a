"""C21: collections, references and passages of a DTS server are read completely, whatever their pages."""
import json
import requests
from urllib.parse import quote
from rdflib import Literal, URIRef
from pyvc.goals import *
from pyvc import interp as I
from contracts.domains import *
from contracts.c19 import DECLARATIONS, online
from contracts.documents import Doc, ref
from MyCapytain.common.constants import Mimetypes, RDF_NAMESPACES, set_graph, bind_graph
from MyCapytain.common.reference import BaseReference, CtsReference, DtsCitation, DtsReference, DtsReferenceSet
from MyCapytain.errors import PaginationBrowsingError
from MyCapytain.resolvers.dts.api_v1 import HttpDtsResolver
from MyCapytain.resources.collections.dts import DtsCollection, HttpResolverDtsCollection
from MyCapytain.resources.collections.dts._resolver import PaginatedProxy
from MyCapytain.resources.texts.remote.dts import DtsResolverDocument

M = Module("C21")
HYDRA, DTS = "https://www.w3.org/ns/hydra/core#", "https://w3id.org/dts/api#"
CONTEXT = {"@vocab": HYDRA, "dc": "http://purl.org/dc/terms/", "dts": DTS, "foo": "http://foo.bar/ontology#"}
TERMS = {"dc:title": "http://purl.org/dc/terms/title", "dc:creator": "http://purl.org/dc/terms/creator", "dc:date": "http://purl.org/dc/terms/date",
         "foo:sender": "http://foo.bar/ontology#sender"}
TEXTS = ["Lasciva Roma", "Priapeia & co", "é", "1879", "https://viaf.org/1"]
TYPES = ["book", "poem", "line"]


class Answer(object):
    encoding = "utf-8"

    def __init__(self, body, links=None):
        self.text = body if isinstance(body, str) else json.dumps(body)
        self.headers = {} if not links else {"Link": ", ".join('<%s>; rel="%s"' % (u, r) for r, u in links)}

    def raise_for_status(self):
        pass

    def json(self):
        return json.loads(self.text)


def gen_statements(rng):
    out = {}
    for k in rng.sample(sorted(TERMS), rng.randint(0, 3)):
        out[k] = [rng.choice([rng.choice(TEXTS), {"@language": rng.choice(["lat", "eng"]), "@value": rng.choice(TEXTS)}, rng.randint(0, 2000),
                              {"@id": "http://x.org/%d" % rng.randint(0, 3)}]) for _ in range(rng.randint(1, 2))]
    return out


def literal(v):
    if isinstance(v, dict) and "@id" in v:
        return URIRef(v["@id"])
    return Literal(v["@value"], lang=v["@language"]) if isinstance(v, dict) else Literal(v)


class Node(object):
    def __init__(self, rng, name, depth, server):
        self.id, self.server = name, server
        self.title, self.description = rng.choice(TEXTS), rng.choice([None] + TEXTS)
        self.statements = gen_statements(rng)
        self.children, self.parents = [], []
        self.readable = depth == 0 or rng.random() < .2
        self.doc = Doc(rng) if self.readable and rng.random() < .7 else None
        self.announced = rng.choice([self.doc.depth, self.doc.depth, None, 1, 4]) if self.doc else None
        if not self.readable:
            for i in range(rng.randint(0, 4)):
                c = Node(rng, "%s_%d" % (name, i), depth - 1, server) if not server.nodes or rng.random() < .85 else rng.choice(server.nodes)
                if c not in self.children:
                    self.children.append(c)
                    c.parents.append(self)
        server.nodes.append(self)

    def body(self):
        out = {"@id": self.id, "title": self.title, "@type": "Resource" if self.readable else "Collection", "totalItems": len(self.children)}
        if self.description is not None:
            out["description"] = self.description
        for name, keep in (("dts:dublincore", "dc"), ("dts:extensions", "foo")):
            some = {k: v for k, v in self.statements.items() if k.startswith(keep)}
            if some:
                out[name] = some
        if self.doc:
            if self.announced is not None:
                out["dts:citeDepth"] = self.announced
            structure = []
            for t in TYPES[:self.doc.depth][::-1]:
                structure = [{"dts:citeType": t, "dts:citeStructure": structure}] if structure else [{"dts:citeType": t}]
            out["dts:citeStructure"] = structure
        return out

    def short(self):
        return {"@id": self.id, "title": self.title, "@type": "Resource" if self.readable else "Collection", "totalItems": len(self.children)}

    def below(self):
        out = []
        for c in self.children:
            out += [c] + c.below()
        return out


class DtsServer(object):
    """A DTS server of random collections and documents, described independently of the library."""
    ROOT = "http://x.org/api/dts"

    def __init__(self, rng):
        self.rng, self.nodes, self.log = rng, [], []
        self.size = rng.choice([1, 2, 3, 50])
        self.step = rng.choice([1, 1, 7])        # pages are named by the server: 1, 8, 15...
        self.first = rng.random() < .7           # the page comes last in links
        self.more = rng.choice([[], [], ["per_page=%d" % self.size]])
        self.always = rng.random() < .5          # says how it is paginated even on a single page
        self.root = Node(rng, "urn:root", rng.randint(1, 3), self)
        self.extra = gen_statements(rng)
        self.each = rng.random() < .5            # each reference tells its type

    def describe(self):
        return "; ".join("%s -> %s%s" % (n.id, [c.id for c in n.children], " refs " + ",".join(ref(q) for q in n.doc.refs(n.doc.depth)) if n.doc else "") for n in self.nodes)

    def node(self, name):
        return [n for n in self.nodes if n.id == name][0]

    def get(self, url, params=None, headers=None):
        self.log.append((url[len(self.ROOT):], params))
        if url == self.ROOT:
            return Answer({"@id": "/api/dts", "collections": "/api/dts/collections", "documents": "/api/dts/documents", "navigation": "/api/dts/navigation"})
        return getattr(self, url.split("/")[-1])(params)

    def page(self, out, route, members, params):
        number, n = int(params.get("page", 1)), max(1, -(-len(members) // self.size))
        page = (number - 1) // self.step + 1
        assert 1 <= page <= n and (number - 1) % self.step == 0, params
        out["member"] = members[(page - 1) * self.size:page * self.size]
        if n > 1 or self.always:
            others = "&".join("%s=%s" % (k, quote(v)) for k, v in params.items() if k != "page")
            at = lambda i: "/api/dts/%s?%s" % (route, "&".join(self.more + ([others] if self.first else []) + ["page=%d" % ((i - 1) * self.step + 1)] +
                                                               ([] if self.first else [others])))
            out["view"] = {"@id": at(page), "@type": "PartialCollectionView", "first": at(1), "last": at(n)}
            if page > 1:
                out["view"]["previous"] = at(page - 1)
            if page < n:
                out["view"]["next"] = at(page + 1)
        return Answer(out)

    def collections(self, params):
        node = self.node(params.get("id", "urn:root"))
        out = dict({"@context": CONTEXT}, **node.body())
        return self.page(out, "collections", [c.short() for c in (node.parents if params.get("nav") == "parents" else node.children)], params)

    def place(self, params):
        """Start and end of what is asked for."""
        s, e = params.get("ref", params.get("start")), params.get("ref", params.get("end"))
        return (tuple(s.split(".")), tuple(e.split("."))) if s else None

    def listed(self, doc, place, level):
        if place is None:
            return doc.refs(level)
        start, end = place
        level = max(level, len(start) + (1 if start == end else 0))
        refs = doc.refs(level) if level <= doc.depth else []
        inside = [i for i, r in enumerate(refs) if r[:len(start)] == start or r[:len(end)] == end]
        return refs[inside[0]:inside[-1] + 1] if inside else []

    def navigation(self, params):
        doc = self.node(params["id"]).doc
        level = int(params.get("level", 1))
        refs = self.listed(doc, self.place(params), level)
        by = int(params.get("groupBy", 1))
        out = {"@context": CONTEXT, "@id": "/api/dts/navigation?id=" + params["id"], "dts:citeDepth": doc.depth}
        if refs:
            out["dts:level"] = len(refs[0])
            out["dts:citeType"] = TYPES[len(refs[0]) - 1]
        members = []
        for i in range(0, len(refs), by):
            group = refs[i:i + by]
            m = {"dts:ref": ref(group[0])} if len(group) == 1 else {"dts:start": ref(group[0]), "dts:end": ref(group[-1])}
            if self.each:
                m["dts:citeType"] = "own " + TYPES[len(group[0]) - 1]
            if i == 0 and self.extra:
                m["dts:dublincore"] = {k: v for k, v in self.extra.items() if k.startswith("dc")}
                m["dts:extensions"] = {k: v for k, v in self.extra.items() if k.startswith("foo")}
            members.append(m)
        return self.page(out, "navigation", members, params)

    def documents(self, params):
        doc, place = self.node(params["id"]).doc, self.place(params)
        at = "/api/dts/documents?id=" + quote(params["id"])
        links = [("collection", "/api/dts/collections?id=" + quote(params["id"])), ("contents", "/api/dts/navigation?id=" + quote(params["id"]))]
        if place is None:
            words = doc.words()
        else:
            level = doc.refs(len(place[0]))
            i, j = level.index(place[0]), level.index(place[1])
            words = [w for r in level[i:j + 1] for w in doc.words(r)]
            link = lambda rs: at + ("&ref=" + quote(ref(rs[0])) if len(rs) == 1 else "&start=%s&end=%s" % (quote(ref(rs[0])), quote(ref(rs[-1]))))
            n = j + 1 - i
            if i > 0:
                links.append(("prev", link(level[max(0, i - n):i])))
            if j + 1 < len(level):
                links.append(("next", link(level[j + 1:j + 1 + n])))
            links.append(("up", link([place[0][:-1]]) if len(place[0]) > 1 else at))
            links += [("first", link(level[:n])), ("last", link(level[-n:]))]
        self.rng.shuffle(links)
        return Answer(self.rng.choice(DECLARATIONS) + "<TEI xmlns='http://www.tei-c.org/ns/1.0'><dts:fragment xmlns:dts='%s'>%s</dts:fragment></TEI>" % (
            DTS, "".join("<w>%s</w> " % w.replace("&", "&amp;").replace("<", "&lt;") for w in words)), links)


def fresh():
    set_graph(bind_graph())


SERVER = Custom(None, DtsServer)
PICK = Custom(None, lambda rng: rng.random())


def pick(items, x):
    return items[int(x * len(items))]


def stated(metadata, key):
    return sorted(x.n3() for x in metadata.get(URIRef(key)))


def expected(statements, key):
    return sorted({literal(v).n3() for v in statements.get(key, [])})


def as_given(g, c, n):
    """The collection is the one the server has."""
    g.ensures("identifier, title, size and kind", c.id == n.id and str(c.get_label()) == n.title and c.size == len(n.children) and c.readable == n.readable)
    g.ensures("description", [str(d) for d in c.metadata.get(RDF_NAMESPACES.HYDRA.description)] == ([] if n.description is None else [n.description]))
    for k, uri in TERMS.items():
        g.ensures("statements", stated(c.metadata, uri) == expected(n.statements, k))
    cite = list(c.citation)
    g.ensures("citation", [x.name for x in cite] == (TYPES[:n.doc.depth] if n.doc else []) and (not n.doc or c.citation.depth == (n.announced or n.doc.depth)))


@M.goal(of=(HttpDtsResolver.getMetadata, DtsCollection.parse, HttpResolverDtsCollection.parse_member, HttpResolverDtsCollection._parse_paginated_members,
            HttpResolverDtsCollection.children, HttpResolverDtsCollection.parents, HttpResolverDtsCollection.retrieve, PaginatedProxy.__iter__),
        bounded=True, samples=250, s=SERVER, x=PICK, y=PICK, order=Choice("children", "parents"))
def collections(g, s, x, y, order):
    """Bounded: collections of a server, their members and parents, over random servers."""
    fresh()
    r = HttpDtsResolver(s.ROOT)
    n = pick(s.nodes, x)
    c = online(s, lambda: r.getMetadata() if n is s.root and y < .5 else r.getMetadata(n.id))
    as_given(g, c, n)
    for what in [order] + [w for w in ("children", "parents") if w != order]:
        if what == "children":
            found = online(s, lambda: {k: v for k, v in c.children.items()})
            g.ensures("exactly its members, in order", [k for k in found] == [m.id for m in n.children] and [v.id for v in found.values()] == [m.id for m in n.children])
        else:
            g.ensures("exactly its parents", online(s, lambda: sorted(p.id for p in c.parents)) == sorted(m.id for m in n.parents))
    before = len(s.log)
    g.ensures("not asked again", online(s, lambda: [k for k in c.children] + sorted(p.id for p in c.parents)) ==
              [m.id for m in n.children] + sorted(m.id for m in n.parents) and len(s.log) == before)
    if n.children:
        m = pick(n.children, y)
        d = online(s, lambda: c.children[m.id])
        g.ensures("a member is known in short", d.id == m.id and str(d.get_label()) == m.title and d.size == len(m.children) and d.readable == m.readable)
        online(s, lambda: d.retrieve())
        as_given(g, d, m)
        g.ensures("the parents of the member", online(s, lambda: sorted(p.id for p in d.parents)) == sorted(p.id for p in m.parents))
        g.ensures("the members of the member", online(s, lambda: [k for k in d.children]) == [k.id for k in m.children])


class Flaky(object):
    """The server, but the request of that number fails."""
    def __init__(self, server, failing):
        self.server, self.failing, self.asked = server, failing, 0

    def get(self, url, params=None, headers=None):
        self.asked += 1
        if self.asked == self.failing:
            raise requests.ConnectionError("down")
        return self.server.get(url, params=params, headers=headers)


@M.goal(of=(HttpResolverDtsCollection._parse_paginated_members, HttpResolverDtsCollection.children, HttpResolverDtsCollection.parents), bounded=True, samples=250,
        s=SERVER, x=PICK, failing=Int(glo=1, ghi=4), order=Choice("children", "parents"))
def interrupted(g, s, x, failing, order):
    """Bounded: a request fails while the pages are read, and they are read again later."""
    fresh()
    s.size = min(s.size, 2)
    r = HttpDtsResolver(s.ROOT)
    n = pick(s.nodes, x)
    c = online(s, lambda: r.getMetadata(n.id))
    f = Flaky(s, failing)

    def members():
        return [k for k in c.children]

    def parents():
        return sorted(p.id for p in c.parents)
    for ask, want in [(members, [m.id for m in n.children]), (parents, sorted(m.id for m in n.parents))][::1 if order == "children" else -1]:
        out = g.outcome(lambda: online(f, ask))
        if out[0] == "raise":
            g.ensures("the failure is told", out[1] == "ConnectionError" and f.asked == failing)
            out = g.outcome(lambda: online(f, ask))
        g.ensures("all of them, whatever failed before", out == ("ok", want))


@M.goal(of=(HttpResolverDtsCollection.retrieve,), bounded=True, samples=60, s=SERVER)
def vanished(g, s):
    """Bounded: a member the server no longer knows when it is read."""
    fresh()
    g.requires(len(s.root.children) > 0)
    r = HttpDtsResolver(s.ROOT)
    c = online(s, lambda: r.getMetadata())
    d = online(s, lambda: list(c.children.values())[0])
    s.collections = lambda params: Answer([])
    g.ensures("an error", g.outcome(lambda: online(s, lambda: d.retrieve())) == ("raise", "UnknownCollection"))


@M.goal(of=(HttpResolverDtsCollection.children, PaginatedProxy.__getitem__), bounded=True, samples=150, s=SERVER, x=PICK, y=PICK)
def lookups(g, s, x, y):
    """Bounded: a member looked up before any page is read; everything below a collection."""
    fresh()
    r = HttpDtsResolver(s.ROOT)
    n = pick(s.nodes, x)
    below = sorted({m.id for m in n.below()})
    if n.children:
        m = pick(n.children, y)
        c = online(s, lambda: r.getMetadata(n.id))
        d = online(s, lambda: c.children[m.id])
        g.ensures("the member of that identifier", d.id == m.id and str(d.get_label()) == m.title)
        c = online(s, lambda: r.getMetadata(n.id))
        g.ensures("an unknown member is an error", g.outcome(lambda: online(s, lambda: c.children["unknown"])) == ("raise", "KeyError"))
    c = online(s, lambda: r.getMetadata(n.id))
    g.ensures("everything below", sorted({d.id for d in online(s, lambda: c.descendants)}) == below)
    c = online(s, lambda: r.getMetadata(n.id))
    g.ensures("texts below", sorted({d.id for d in online(s, lambda: c.readableDescendants)}) == sorted({m.id for m in n.below() if m.readable}))


def texts_of(s):
    return [n for n in s.nodes if n.doc]


@M.goal(of=(HttpDtsResolver.getReffs,), bounded=True, samples=300, s=SERVER, x=PICK, y=PICK, z=PICK, level=Int(glo=1, ghi=3), by=Opt(Int(glo=1, ghi=4)),
        how=Choice("text", "dts", "range", "none"))
def references(g, s, x, y, z, level, by, how):
    """Bounded: references of a level, of a passage or of a range, over random servers."""
    g.requires(len(texts_of(s)) > 0)
    fresh()
    n = pick(texts_of(s), x)
    g.requires(level <= n.doc.depth)
    r = HttpDtsResolver(s.ROOT)
    refs = n.doc.refs(level)
    i, place, asked = int(y * len(refs)), None, None
    if how == "range":
        j = i + int(z * (len(refs) - i))
        g.requires(j > i)
        place, asked = (refs[i], refs[j]), DtsReference(ref(refs[i]), ref(refs[j]))
    elif how != "none":
        place, asked = (refs[i], refs[i]), ref(refs[i]) if how == "text" else DtsReference(ref(refs[i]))
    want = s.listed(n.doc, place, level)
    size = 1 if by is None else by
    out = online(s, lambda: r.getReffs(n.id, level=level, subreference=asked, additional_parameters=None if by is None else {"groupBy": by}))
    groups = [want[k:k + size] for k in range(0, len(want), size)]
    depth = len(want[0]) if want else None
    kind = None if not want else ("own " if s.each else "") + TYPES[depth - 1]
    g.ensures("every reference of every page, in order", [tuple(t for t in q if t) for q in out] == [(ref(t[0]),) if len(t) == 1 else (ref(t[0]), ref(t[-1])) for t in groups])
    g.ensures("type of each", all((None if q.type is None else str(q.type)) == kind for q in out))
    g.ensures("level and citation", out.level == depth and (None if out.citation is None else out.citation.name) == (TYPES[depth - 1] if want else None))
    for k, uri in TERMS.items():
        if want:
            g.ensures("statements", stated(out[0].metadata, uri) == expected(s.extra, k))


@M.goal(of=(HttpDtsResolver.getReffs,), bounded=True, samples=20, s=SERVER)
def nothing(g, s):
    """Bounded: an empty answer is an error."""
    r = HttpDtsResolver(s.ROOT)
    s.navigation = lambda params: Answer({})
    try:
        out = online(s, lambda: r.getReffs("x"))
    except PaginationBrowsingError:
        out = "an error"
    g.ensures("an error", out == "an error")


def read(node):
    return " ".join(node.export(Mimetypes.PLAINTEXT).split())


def same(a, b):
    """The reference is the one of those labels (or of that range), or none."""
    return (None if a is None else tuple(t for t in a if t)) == b


@M.goal(of=(HttpDtsResolver.getTextualNode, DtsResolverDocument.parse, DtsResolverDocument.getTextualNode, DtsResolverDocument.getReffs),
        bounded=True, samples=300, s=SERVER, x=PICK, y=PICK, z=PICK, level=Int(glo=1, ghi=3), how=Choice("text", "dts", "range", "none"))
def passages(g, s, x, y, z, level, how):
    """Bounded: a document, a passage or a range, its neighbours and what is below, over random servers."""
    g.requires(len(texts_of(s)) > 0)
    fresh()
    n = pick(texts_of(s), x)
    doc = n.doc
    g.requires(level <= doc.depth)
    r = HttpDtsResolver(s.ROOT)
    refs = doc.refs(level)
    i = j = int(y * len(refs))
    if how == "none":
        t = online(s, lambda: r.getTextualNode(n.id))
        g.ensures("the whole text", t.id == n.id and read(t) == " ".join(" ".join(doc.words()).split()) and t.siblingsId == (None, None))
        g.ensures("its references", [q.start for q in online(s, lambda: t.childIds)] == [ref(q) for q in doc.refs(1)])
        g.ensures("references of a level", [q.start for q in online(s, lambda: t.getReffs(level))] == [ref(q) for q in refs])
        g.ensures("its collection", online(s, lambda: t.collection.id) == n.id and online(s, lambda: t.depth) == (n.announced or doc.depth))
        for k, uri in TERMS.items():
            g.ensures("its statements", online(s, lambda: stated(t.metadata, uri)) == expected(n.statements, k))
        return
    if how == "range":
        j = i + int(z * (len(refs) - i))
        g.requires(j > i)
        asked = DtsReference(ref(refs[i]), ref(refs[j]))
    else:
        asked = ref(refs[i]) if how == "text" else DtsReference(ref(refs[i]))
    t = online(s, lambda: r.getTextualNode(n.id, asked))
    checked(g, s, n, t, i, j, level)
    if t.nextId is not None:
        u = online(s, lambda: t.next)
        k = min(len(refs), j + 1 + (j + 1 - i)) - 1
        checked(g, s, n, u, j + 1, k, level)
        if k - j == j + 1 - i:
            checked(g, s, n, online(s, lambda: u.prev), i, j, level)
    if i == j and level < doc.depth:
        below = [q for q in doc.refs(level + 1) if q[:level] == refs[i]]
        g.ensures("references below", [q.start for q in online(s, lambda: t.childIds)] == [ref(q) for q in below])
        g.ensures("texts below", [read(c) for c in online(s, lambda: list(t.children))] == [" ".join(" ".join(doc.words(q)).split()) for q in below])
        g.ensures("first and last below", read(online(s, lambda: t.first)) == " ".join(" ".join(doc.words(below[0])).split())
                  and read(online(s, lambda: t.last)) == " ".join(" ".join(doc.words(below[-1])).split()))


def checked(g, s, n, t, i, j, level):
    doc, refs = n.doc, n.doc.refs(level)
    words = [w for q in refs[i:j + 1] for w in doc.words(q)]
    g.ensures("text of the passage", t.id == n.id and read(t) == " ".join(" ".join(words).split()))
    size = j + 1 - i
    before, after = refs[max(0, i - size):i], refs[j + 1:j + 1 + size]
    name = lambda qs: None if not qs else (ref(qs[0]),) if len(qs) == 1 else (ref(qs[0]), ref(qs[-1]))
    g.ensures("neighbours", same(t.prevId, name(before)) and same(t.nextId, name(after)))
    g.ensures("container", same(t.parentId, (ref(refs[i][:-1]),) if level > 1 else None))


@M.goal(of=(DtsCollection.parse, DtsCollection._parse_members, DtsCollection._parse_metadata, DtsCollection.parse_member), bounded=True, samples=200,
        s=SERVER, x=PICK, direction=Choice("children", "parents"))
def offline(g, s, x, direction):
    """Bounded: a collection and its members or parents read from one answer, over random servers."""
    fresh()
    s.size = 100
    n = pick(s.nodes, x)
    c = DtsCollection.parse(s.collections({"id": n.id, "nav": direction}).json(), direction=direction)
    as_given(g, c, n)
    if direction == "children":
        g.ensures("its members, in order", [(k, v.id, str(v.get_label())) for k, v in c.children.items()] == [(m.id, m.id, m.title) for m in n.children])
        g.ensures("it is their parent", all([p is c for p in v.parents] == [True] for v in c.children.values()))
        g.ensures("no parent", len(c.parents) == 0)
    else:
        g.ensures("its parents", sorted((p.id, str(p.get_label())) for p in c.parents) == sorted((m.id, m.title) for m in n.parents))
        g.ensures("no member", len(c.children) == 0)


# ---------------------------------------------------------------- proved: every page, any number of references in each
from MyCapytain.resolvers.dts import api_v1
MEMBER = I.Kind("Member", eq=lambda it, r, o: SBool(r.t == o.t) if isinstance(o, Ref) else False)
READ = I.Kind("DtsReference", isinst={BaseReference: True}, eq=lambda it, r, o: SBool(r.t == o.t) if isinstance(o, Ref) else False)


def parsed(member, kind):
    """The reference a member stands for, given the type announced for all."""
    return api_v1._parse_ref(member, default_type=kind)


class Pages(object):
    """A retriever whose answers to navigation requests are these pages."""
    def __init__(self, pages):
        self.pages, self.log = pages, []

    def get_navigation(self, name, **kwargs):
        self.log.append((name, kwargs))
        return Page(self.pages[len(self.log) - 1])


class Page(object):
    def __init__(self, data):
        self.data = data

    def raise_for_status(self):
        pass

    def json(self):
        return self.data


def told(members, level, kind, next):
    """A page of answers, as expanded JSON-LD."""
    out = {HYDRA + "member": members}
    if level is not None:
        out[DTS + "level"] = [{"@value": level}]
    if kind is not None:
        out[DTS + "citeType"] = [{"@value": kind}]
    if next is not None:
        out[HYDRA + "view"] = [{HYDRA + "next": [{"@value": next}]}] if next else [{"@id": "/x"}]
    return [out]


class Expand(object):
    def apply(self, it, args, kw):
        return args[0]


class ParseRef(object):
    def apply(self, it, args, kw):
        kind = args[1] if len(args) > 1 else kw.get("default_type")
        f = it.e.uf("reference.of", MEMBER.sort, z3.StringSort(), READ.sort)
        return Ref(READ, f(args[0].t, sterm("" if kind is None else kind)))


def setup_pages(it):
    it.contracts[api_v1.expand] = Expand()
    it.contracts[api_v1._parse_ref] = ParseRef()
    it.e.under_contract.add("pyld.jsonld.expand")


def sym_members(it, name):
    f = it.e.uf(name + ".at", z3.IntSort(), MEMBER.sort)
    return sym_list(it, name, lambda j: Ref(MEMBER, f(j)))


def gen_members(rng):
    return [{DTS + "ref": [{"@value": str(rng.randint(1, 9))}]} for _ in range(rng.randint(0, 3))]


MEMBERS = Custom(sym_members, gen_members)


@M.goal(of=(HttpDtsResolver.getReffs,), first=MEMBERS, second=MEMBERS, third=MEMBERS, n=Choice(1, 2, 3), level=Opt(Int(glo=0, ghi=3)), told_level=Opt(Int(glo=0, ghi=3)),
        kind=Opt(Str(nonempty=True, gen=lambda rng: rng.choice(TYPES))), view=Bool(), setup=setup_pages)
def paged(g, first, second, third, n, level, told_level, kind, view):
    ends = "" if view else None
    pages = [told(first, told_level, kind, "/n?page=2&id=x" if n > 1 else ends)]
    if n > 1:
        pages.append(told(second, told_level, kind, "/n?id=x&page=13" if n > 2 else ends))
    if n > 2:
        pages.append(told(third, told_level, kind, ends))
    want = first + second + third if n == 3 else (first + second if n == 2 else first)
    r = HttpDtsResolver("http://x")
    r._endpoint = Pages(pages)
    out = r.getReffs("x", level=level)
    g.ensures("every reference of every page, in order", list(out) == [parsed(m, kind) for m in want])
    g.ensures("level and citation", out.level == told_level and (out.citation is None if kind is None else out.citation.name == kind))
    g.ensures("one request a page", len(r._endpoint.log) == n and r._endpoint.log[0] == ("x", {"level": level, "ref": None, "exclude": None, "group_by": 1}))
    if n > 1:
        g.ensures("the page announced", str(r._endpoint.log[1][1].get("page")) == "2")
    if n > 2:
        g.ensures("the next page announced", str(r._endpoint.log[2][1].get("page")) == "13")


LABEL = Str(nonempty=True, gen=lambda rng: rng.choice(["1", "2.3", "a"]))


@M.goal(of=(api_v1._parse_ref,), a=Opt(LABEL), b=Opt(LABEL), c=Opt(LABEL), kind=Opt(LABEL), own=Opt(LABEL))
def member(g, a, b, c, kind, own):
    """One reference of an answer."""
    given = [(DTS + "ref", a), (DTS + "start", b), (DTS + "end", c), (DTS + "citeType", own)]
    data = {}
    for k, v in given:
        if v is not None:
            data[k] = [{"@value": v}]
    try:
        r = api_v1._parse_ref(data, default_type=kind)
    except api_v1.EmptyReference:
        g.ensures("nothing told is an error", a is None and (b is None or c is None))
        return
    g.ensures("something is told", a is not None or (b is not None and c is not None))
    want = DtsReference(a) if a is not None else DtsReference(b, c)
    g.ensures("the reference or the range", r.start == want.start and r.end == want.end and r.is_range() == (a is None))
    told_type = kind if own is None else own
    g.ensures("its own type or the one told for all", r.type is None if told_type is None else str(r.type) == told_type)


class Lazy(object):
    def __init__(self, known, rest, complete):
        self.items, self.rest, self.complete, self.updates = list(known), rest, complete, 0
        self.proxy = PaginatedProxy(self, "items", update_lambda=lambda: self.update(), condition_lambda=lambda: self.complete)

    def update(self):
        self.updates = self.updates + 1
        self.items.extend(self.rest)
        self.complete = True


@M.goal(of=(PaginatedProxy.__iter__, PaginatedProxy._run), known=MEMBERS, rest=MEMBERS, complete=Bool())
def proxies(g, known, rest, complete):
    lazy = Lazy(known, rest, complete)
    want = known if complete else known + rest
    g.ensures("everything, read when needed", list(iter(lazy.proxy)) == want)
    g.ensures("read once", list(iter(lazy.proxy)) == want and lazy.updates == (0 if complete else 1))
