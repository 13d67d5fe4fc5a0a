"""C15: the local resolver finds the text of an identifier and reads it as the text itself does."""
import os
import shutil
import tempfile
from pyvc.goals import *
from pyvc import interp as I
from contracts.domains import *
from contracts.documents import Doc, ref
from MyCapytain.common.reference import URN, CtsReference
from MyCapytain.resolvers.cts.local import CtsCapitainsLocalResolver
from MyCapytain.resources.prototypes.cts.inventory import CtsEditionMetadata, CtsTranslationMetadata, CtsCommentaryMetadata
from MyCapytain.resources.prototypes.cts.text import PrototypeCtsNode
from MyCapytain.resources.texts.local.capitains.cts import CapitainsCtsText
from MyCapytain.common.constants import Mimetypes

M = Module("C15")
M.level = "exploration"
M.assumptions.append("the identifier of a text and its URN up to the work (C04, C11) are used through their contracts: texts made of the same four members")


# ---------------------------------------------------------------- which text, among any texts
class UrnOf(object):
    def __init__(self, parts):
        self.parts = parts

    def upTo(self, key):
        return self.parts(key)


class Text(CtsEditionMetadata):
    id = urn = None

    def __init__(self, id, parts):
        self.id, self.urn = id, UrnOf(parts)

    def __repr__(self):
        return "%s(%s)" % (type(self).__name__, self.id)


class Other(CtsTranslationMetadata):
    id = urn = None
    __init__, __repr__ = Text.__init__, Text.__repr__


def members(it, r):
    out = []
    for nm in ("namespace", "group", "work", "version"):
        t = it.e.uf(nm, TEXT.sort, z3.StringSort())(r.t)
        for c in ":.#@-":
            it.e.lack_facts[(t.get_id(), c)] = True
            it.e.fact(z3.Not(z3.Contains(t, z3.StringVal(c))))
        it.e.fact(z3.Length(t) > 0)
        it.e.keep.append(t)
        out.append(t)
    return out


def sym_urn(it, r):
    n, g, w, v = members(it, r)

    def up_to(it_, a, k):
        if a[0] != URN.WORK:
            raise I.Unsupported("another level")
        return SStr(("urn:cts:", n, ":", g, ".", w))
    return it.call(UrnOf, [I.Native(up_to)])


def sym_id(it, r):
    n, g, w, v = members(it, r)
    return SStr(("urn:cts:", n, ":", g, ".", w, ".", v))


TEXT = I.Kind("Text", fields={"id": sym_id, "urn": sym_urn},
              isinst={CtsEditionMetadata: lambda it, r: mkbool(it.e.uf("edition", TEXT.sort, z3.BoolSort())(r.t))})


def sym_texts(it, name):
    f = it.e.uf(name + ".at", z3.IntSort(), TEXT.sort)
    return sym_list(it, name, lambda j: Ref(TEXT, f(j)))


def gen_texts(rng):
    out = []
    for _ in range(rng.randint(0, 5)):
        u = URN("urn:cts:ns:%s.%s.%s" % (rng.choice(["a", "b"]), rng.choice(["a", "b", "a1", "b1"]), rng.choice(["a", "b"])))
        out.append(rng.choice([Text, Other])(str(u), u.upTo))
    return out


class Found(object):
    path = ""

    def __init__(self, key):
        self.key = key


class Catalogue(object):
    def __getitem__(self, key):
        return Found(key)


class Quiet(object):
    def error(self, *args):
        pass

    info = warning = error


class Resolver(CtsCapitainsLocalResolver):
    held = ()
    texts = property(lambda self: self.held)

    def __init__(self):
        self.inventory, self.logger = Catalogue(), Quiet()


PART = Str(nonempty=True, lacks=":.#@-", gen=lambda rng: rng.choice(["a", "b"]))


@M.goal(of=(CtsCapitainsLocalResolver.__getText__,), texts=Custom(sym_texts, gen_texts), members=Choice(2, 3, 4, 5), ns=PART, tg=PART, wk=PART, vs=PART,
        as_urn=Bool(), passage=Bool())
def which_text(g, texts, members, ns, tg, wk, vs, as_urn, passage):
    r = Resolver()
    r.held = texts
    text = "urn:cts:" + ns
    if members > 2:
        text = text + ":" + tg
    if members > 3:
        text = text + "." + wk
    if members > 4:
        text = text + "." + vs
    g.requires(not passage or members == 4)
    asked = text + ":1.1" if passage else text
    out = g.outcome(lambda: r.__getText__(URN(asked) if as_urn else asked))
    if members == 5:
        g.ensures("the text of this URN", out[0] == "ok" and out[1][1].key == text)
    elif members < 4:
        g.ensures("a group or a namespace is not a text", out == ("raise", "InvalidURN"))
    elif out[0] == "ok":
        g.ensures("the first edition of this very work", out[1][1].key == first_edition(texts, text))
    else:
        g.ensures("the work has no edition", out == ("raise", "UnknownObjectError") and first_edition(texts, text) is None)


def first_edition(texts, work):
    for t in texts:
        if isinstance(t, CtsEditionMetadata) and t.urn.upTo(URN.WORK) == work:
            return t.id
    return None


# ---------------------------------------------------------------- bounded: whole folders
CTSNS = "xmlns:ti='http://chs.harvard.edu/xmlns/cts'"


class Corpus(object):
    """Random groups, works and texts in one or two folders."""
    def __init__(self, rng):
        self.groups, self.works, self.texts = {}, {}, {}
        self.folders = rng.randint(1, 2)
        self.encoding = rng.choice([None, None, "utf-8", "iso-8859-1", "utf-16"])     # declared by every file
        self.named = rng.random() < .6      # folders have the names of the works and groups they hold
        for g in rng.sample(["g", "g2", "h"], rng.randint(1, 2)):
            self.groups[g] = [(rng.choice(["Virgil", "Homère", "a & b"]), l) for l in rng.sample(["eng", "fre"], rng.randint(1, 2))]
            for w in rng.sample(["w", "w2", "v"], rng.randint(1, 2)):
                self.works[g, w] = (rng.choice(["lat", "grc"]), [(rng.choice(["Aeneid", "L'Iliade"]), l) for l in rng.sample(["eng", "fre"], rng.randint(0, 2))],
                                    rng.randrange(self.folders))
                for v in rng.sample(["p1", "p2", "p12"], rng.randint(0, 2)):
                    kind = rng.choice(["edition", "edition", "translation", "commentary"])
                    doc = Doc(rng, maxwidth=3, wrap=False)
                    doc.form, doc.given = "text", False     # as the resolver reads it
                    self.texts[g, w, v] = (kind, self.works[g, w][0] if kind == "edition" else rng.choice(["eng", "ger"]),
                                           [(rng.choice(["Label", "Étiquette"]), l) for l in rng.sample(["eng", "fre"], rng.randint(0, 2))],
                                           [("About it", "eng")] if rng.random() < .5 else [], doc if rng.random() < .9 else None)

    def describe(self):
        return "%s %s %s %s" % (self.encoding, self.groups, self.works, {k: v[:4] + (v[4] and v[4].xml,) for k, v in self.texts.items()})

    def put(self, path, xml):
        if self.encoding is None:
            return put(path, xml)
        with open(path, "wb") as f:
            f.write(("<?xml version='1.0' encoding='%s'?>\n%s" % (self.encoding, xml)).encode(self.encoding, "xmlcharrefreplace"))

    def folder(self, name):
        return name if self.named else "of " + name

    def write(self, base):
        def lines(tag, values):
            return "".join("<ti:%s xml:lang='%s'>%s</ti:%s>" % (tag, l, v.replace("&", "&amp;"), tag) for v, l in values)
        for g, names in self.groups.items():
            for f in range(self.folders):
                if f and not any(k[0] == g and w[2] == f for k, w in self.works.items()):
                    continue
                d = os.path.join(base, "f%d" % f, "data", self.folder(g))
                os.makedirs(d)
                self.put(os.path.join(d, "__cts__.xml"), "<ti:textgroup %s urn='urn:cts:ns:%s'>%s</ti:textgroup>" % (CTSNS, g, lines("groupname", names)))
        for (g, w), (lang, titles, f) in self.works.items():
            d = os.path.join(base, "f%d" % f, "data", self.folder(g), self.folder(w))
            os.makedirs(d)
            inner = ""
            for (g2, w2, v), (kind, tl, labels, descs, doc) in self.texts.items():
                if (g2, w2) == (g, w):
                    inner += "<ti:%s urn='urn:cts:ns:%s.%s.%s'%s>%s%s</ti:%s>" % (
                        kind, g, w, v, "" if kind == "edition" else " xml:lang='%s'" % tl, lines("label", labels), lines("description", descs), kind)
                    if doc:
                        self.put(os.path.join(d, "%s.%s.%s.xml" % (g, w, v)), doc.xml)
            self.put(os.path.join(d, "__cts__.xml"), "<ti:work %s urn='urn:cts:ns:%s.%s' xml:lang='%s'>%s%s</ti:work>" % (CTSNS, g, w, lang, lines("title", titles), inner))
        return [os.path.join(base, "f%d" % f) for f in range(self.folders)]


def put(path, content):
    with open(path, "w", encoding="utf-8") as f:
        f.write(content)


class Loaded(object):
    def __init__(self, corpus, kind=CtsCapitainsLocalResolver, extra=lambda folders: None):
        set_graph(bind_graph())
        self.base = tempfile.mkdtemp(prefix="pyvc-corpus-")
        try:
            where = corpus.write(self.base)
            extra(where)
            self.resolver = kind(where, logger=Quiet())
        except BaseException:
            shutil.rmtree(self.base)
            raise

    def __enter__(self):
        return self.resolver

    def __exit__(self, *a):
        shutil.rmtree(self.base)


def urn(*parts):
    return "urn:cts:ns:" + ".".join(parts)


def values(collection, prop):
    return sorted((str(x), x.language) for x in collection.metadata.get(CTS_NS.term(prop)))


from MyCapytain.common.constants import RDF_NAMESPACES
CTS_NS = RDF_NAMESPACES.CTS
BOUND = dict(bounded=True, samples=60)


@M.goal(of=(CtsCapitainsLocalResolver.parse, CtsCapitainsLocalResolver._parse_text, CtsCapitainsLocalResolver._parse_work,
            CtsCapitainsLocalResolver._parse_textgroup), corpus=Custom(None, Corpus), **BOUND)
def folders(g, corpus):
    with Loaded(corpus, Strict) as r:
        catalogue(g, corpus, r)


UNREADABLE = ["", "<ti:textgroup", "plain", "<a><b></a>"]
NO_TEXT = UNREADABLE + ["<TEI xmlns='http://www.tei-c.org/ns/1.0'><text><body><p>No scheme</p></body></text></TEI>"]


class Strict(CtsCapitainsLocalResolver):
    """Remembers which texts it is told are invalid."""
    def _clean_invalids(self, invalids):
        self.invalids = invalids


class Lenient(Strict):
    RAISE_ON_GENERIC_PARSING_ERROR = False


def spoil(rng):
    return [(rng.choice(["group", "work", "text"]), rng.random(), rng.random()) for _ in range(rng.randint(1, 3))]


@M.goal(of=(CtsCapitainsLocalResolver.parse, CtsCapitainsLocalResolver._parse_textgroup_wrapper, CtsCapitainsLocalResolver._parse_work_wrapper,
            CtsCapitainsLocalResolver._parse_text), corpus=Custom(None, Corpus), spoilt=Custom(None, spoil), **BOUND)
def unreadable(g, corpus, spoilt):
    """Bounded: files of the folders that cannot be read."""
    missing = [k for k, v in corpus.texts.items() if v[4] is None]

    def extra(folders):
        for i, (what, a, b) in enumerate(spoilt):
            content = UNREADABLE[int(a * len(UNREADABLE))]
            if what == "group":
                d = os.path.join(folders[int(b * len(folders))], "data", "zz%d" % i)
            elif what == "work":
                (group, _), (_, _, f) = sorted(corpus.works.items())[int(b * len(corpus.works))]
                d = os.path.join(folders[f], "data", corpus.folder(group), "zz%d" % i)
            else:
                if missing:
                    k = missing[int(b * len(missing))]
                    put(os.path.join(folders[corpus.works[k[:2]][2]], "data", corpus.folder(k[0]), corpus.folder(k[1]), ".".join(k) + ".xml"), NO_TEXT[int(a * len(NO_TEXT))])
                continue
            os.makedirs(d)
            put(os.path.join(d, "__cts__.xml"), content)
    if any(what != "text" for what, _, _ in spoilt):
        g.ensures("an error", g.outcome(lambda: Loaded(corpus, extra=extra))[0] == "raise")
    with Loaded(corpus, Lenient, extra) as r:
        catalogue(g, corpus, r)


def catalogue(g, corpus, r):
    top = r.getMetadata()
    g.ensures("told apart from those that cannot be read", sorted(t.id for t in r.invalids) == sorted(urn(*k) for k, v in corpus.texts.items() if v[4] is None))
    g.ensures("texts of the folders", sorted(t.id for t in r.texts) == sorted(urn(*k) for k in corpus.texts))
    g.ensures("groups", sorted(c.id for i in top.members for c in i.members) == sorted(urn(k) for k in corpus.groups))
    for k, names in corpus.groups.items():
        c = top[urn(k)]
        g.ensures("works of the group", sorted(c.works) == sorted(urn(*w) for w in corpus.works if w[0] == k))
        g.ensures("names", values(c, "groupname") == sorted(names))
    for k, (lang, titles, _) in corpus.works.items():
        c = top[urn(*k)]
        g.ensures("work", c.lang == lang and values(c, "title") == sorted(titles) and c.parent.id == urn(k[0]))
        g.ensures("texts of the work", sorted(c.texts) == sorted(urn(*t) for t in corpus.texts if t[:2] == k))
    for k, (kind, lang, labels, descs, doc) in corpus.texts.items():
        t = top[urn(*k)]
        g.ensures("text", t.subtype == kind and t.lang == lang and t.parent.id == urn(*k[:2]))
        g.ensures("labels and descriptions", values(t, "label") == sorted(labels) and values(t, "description") == descs)
        if doc is None:
            g.ensures("no citation without a text", t.citation is None and not any(
                x is t for x in r.__getTextMetadata__()[0]))
        else:
            g.ensures("citation of the text", [(c.name, c.refsDecl) for c in t.citation] == [
                (c.name, c.refsDecl.replace("'", '"')) for c in doc.text().citation])


@M.goal(of=(CtsCapitainsLocalResolver.getTextualNode, CtsCapitainsLocalResolver.getReffs, CtsCapitainsLocalResolver.getSiblings,
            PrototypeCtsNode.set_metadata_from_collection), corpus=Custom(None, Corpus), pick=Custom(None, lambda rng: rng.random()), **BOUND)
def reading(g, corpus, pick):
    with Loaded(corpus) as r:
        for k, (kind, lang, labels, descs, doc) in corpus.texts.items():
            if doc is None:
                continue
            t = doc.text(urn=URN(urn(*k)))
            u = urn(*k)
            for level in range(1, doc.depth + 1):
                g.ensures("references", list(r.getReffs(u, level=level)) == list(t.getReffs(level=level)))
                refs = doc.refs(level)
                s = ref(refs[int(pick * len(refs))])
                p, q = r.getTextualNode(u, s), t.getTextualNode(CtsReference(s))
                g.ensures("passage", p.export(Mimetypes.XML.Std) == q.export(Mimetypes.XML.Std) and str(p.urn) == u + ":" + s and str(p.reference) == s)
                g.ensures("siblings", r.getSiblings(u, s) == q.siblingsId)
                if level < doc.depth:
                    below = [ref(x) for x in doc.refs(level + 1) if ref(x[:level]) == s]
                    g.ensures("references below", [str(x) for x in r.getReffs(u, level=level + 1, subreference=s)] == below)
                    g.ensures("next level at least", [str(x) for x in r.getReffs(u, level=1, subreference=CtsReference(s))] == below)
            whole = r.getTextualNode(u, metadata=True)
            g.ensures("whole text", whole.export(Mimetypes.PLAINTEXT) == t.export(Mimetypes.PLAINTEXT))
            p = r.getTextualNode(u, ref(doc.refs(1)[0]), metadata=True)
            for x in (p, whole):
                for name, l in corpus.groups[k[0]]:
                    g.ensures("author", str(x.get_creator(l)) == name)
                for name, l in corpus.works[k[:2]][1]:
                    g.ensures("title", str(x.get_title(l)) == name)
                for name, l in labels:
                    g.ensures("label", str(x.get_subject(l)) == name)
                for name, l in descs:
                    g.ensures("description", str(x.get_description(l)) == name)
        for w in corpus.works:
            editions = [urn(*k) for k, v in corpus.texts.items() if k[:2] == w and v[0] == "edition" and v[4] is not None]
            out = g.outcome(lambda: str(r.getTextualNode(urn(*w)).urn))
            if not any(k[:2] == w and v[0] == "edition" for k, v in corpus.texts.items()):
                g.ensures("no edition", out == ("raise", "UnknownObjectError"))
            elif len(editions) == len([k for k, v in corpus.texts.items() if k[:2] == w and v[0] == "edition"]):
                g.ensures("an edition of the work", out[0] == "ok" and out[1] in editions)
