"""C14: searching the local catalogue: filters, pages, and the collection built for an identifier."""
import math
from pyvc.goals import *
from pyvc import interp as I
from contracts.domains import *
from MyCapytain.common.reference import URN
from MyCapytain.resolvers.cts.local import CtsCapitainsLocalResolver
from MyCapytain.resolvers.utils import CollectionDispatcher
from MyCapytain.resources.prototypes.cts.inventory import CtsTextInventoryCollection, CtsTextInventoryMetadata

M = Module("C14")
M.assumptions.append("URN.upTo (C04) is used through its contract in the filter goal: an arbitrary text per level")


# ---------------------------------------------------------------- pages
@M.goal(of=(CtsCapitainsLocalResolver.pagination,), page=Opt(Int(0, None, glo=0, ghi=12)), limit=Opt(Int(None, None, glo=-1, ghi=105)),
        length=Int(0, None, glo=0, ghi=60), prove_ms=20000)
def pagination(g, page, limit, length):
    start, end, number, count = CtsCapitainsLocalResolver.pagination(page, limit, length)
    size = limit if limit is not None and 1 <= limit <= 100 else 10
    asked = 1 if page is None or page == 0 else page
    g.ensures("a whole page, cut at the end", start == (number - 1) * size and end == (start + size if start + size <= length else length))
    g.ensures("count is the size of the slice", count == end - start)
    g.ensures("inside the list", 0 <= start and start <= end and end <= length)
    if (asked - 1) * size < length:
        g.ensures("the page asked", number == asked)
    elif length == 0:
        g.ensures("nothing", number == 1 and start == 0 and end == 0)
    else:
        g.ensures("the last page when there are not so many", end == length and start < length and number >= 1 and number <= asked)


# ---------------------------------------------------------------- filters
class UrnOf(object):
    """The URN of a text: any text up to each level."""
    def __init__(self, parts):
        self.parts = parts

    def upTo(self, key):
        return self.parts(key)


class Text(object):
    def __init__(self, lang, subtype, citation, parts):
        self.lang, self.subtype, self.citation, self.urn = lang, subtype, citation, UrnOf(parts)

    def __repr__(self):
        return "Text(%s, %s, %s, %s)" % (self.lang, self.subtype, self.citation, self.urn.upTo(URN.VERSION))


def sym_urn(it, r):
    f = it.e.uf("up_to", TEXT.sort, z3.IntSort(), z3.StringSort())
    return it.call(UrnOf, [I.Native(lambda it_, a, k: SStr((f(r.t, iterm(a[0])),)))])


def sym_citation(it, r):
    return None if it.e.branch(it.e.uf("no_citation", TEXT.sort, z3.BoolSort())(r.t)) else "citation"


SUBTYPES = ["edition", "translation", "commentary"]


def sym_subtype(it, r):
    k = it.e.uf("subtype", TEXT.sort, z3.IntSort())(r.t)
    for i in range(2):
        if it.e.branch(k == i):
            return SUBTYPES[i]
    return SUBTYPES[2]


TEXT = I.Kind("Text", fields={
    "lang": lambda it, r: SStr((it.e.uf("lang_of", TEXT.sort, z3.StringSort())(r.t),)),
    "subtype": sym_subtype, "citation": sym_citation, "urn": sym_urn})


def sym_texts(it, name):
    f = it.e.uf(name + ".at", z3.IntSort(), TEXT.sort)
    return sym_list(it, name, lambda j: Ref(TEXT, f(j)))


def gen_texts(rng):
    out = []
    for _ in range(rng.randint(0, 6)):
        u = URN("urn:cts:%s:%s.%s.%s" % tuple(rng.choice(["a", "b", "a2"]) for _ in range(4)))
        out.append(Text(rng.choice(["lat", "la", "grc"]), rng.choice(SUBTYPES), rng.choice([None, "c", "c"]), u.upTo))
    return out


class Resolver(CtsCapitainsLocalResolver):
    held = ()
    texts = property(lambda self: self.held)

    def __init__(self):
        pass


PART = Str(nonempty=True, lacks=":.#@-", gen=lambda rng: rng.choice(["a", "b"]))
LEVELS = {2: URN.NAMESPACE, 3: URN.TEXTGROUP, 4: URN.WORK, 5: URN.VERSION}


@M.goal(of=(CtsCapitainsLocalResolver.__getTextMetadata__,), texts=Custom(sym_texts, gen_texts), members=Choice(2, 3, 4, 5), ns=PART, tg=PART,
        wk=PART, vs=PART, as_urn=Bool())
def by_urn(g, texts, members, ns, tg, wk, vs, as_urn):
    r = Resolver()
    r.held = texts
    text = "urn:cts:" + ns
    if members > 2:
        text = text + ":" + tg
    if members > 3:
        text = text + "." + wk
    if members > 4:
        text = text + "." + vs
    found = r.__getTextMetadata__(urn=URN(text) if as_urn else text)
    want = [t for t in texts if t.urn.upTo(LEVELS[members]) == text and t.citation is not None]
    g.ensures("exactly the texts below this URN, in order", found[0] == want)
    g.ensures("all of them", found[1] == 0 and found[2] == len(want))


@M.goal(of=(CtsCapitainsLocalResolver.__getTextMetadata__,), texts=Custom(sym_texts, gen_texts),
        lang=Opt(Str(nonempty=True, gen=lambda rng: rng.choice(["lat", "la", "grc"]))), category=Opt(Choice("edition", "translation", "commentary", "other")))
def by_kind(g, texts, lang, category):
    r = Resolver()
    r.held = texts
    found = r.__getTextMetadata__(lang=lang, category=category)
    want = [t for t in texts if t.citation is not None and (lang is None or t.lang == lang) and
            (category is None or category == "other" or t.subtype == category)]
    g.ensures("exactly the texts of this language and category, in order", found[0] == want)
    g.ensures("all of them", found[1] == 0 and found[2] == len(want))


@M.goal(of=(CtsCapitainsLocalResolver.__getTextMetadata__, CtsCapitainsLocalResolver.pagination), texts=Custom(sym_texts, gen_texts),
        page=Int(1, None, glo=1, ghi=4), limit=Int(1, 100, glo=1, ghi=4), bounded=True, samples=400)
def by_page(g, texts, page, limit):
    r = Resolver()
    r.held = texts
    want = r.__getTextMetadata__()[0]
    found = r.__getTextMetadata__(page=page, limit=limit, pagination=True)
    start, end, number, count = r.pagination(page, limit, len(want))
    g.ensures("the page of the texts found", found[0] == want[start:end] and found[1] == number and found[2] == count)


# ---------------------------------------------------------------- bounded: whole catalogues
class Catalogue(object):
    """One or two inventories of groups, works and texts; some texts without citation."""
    def __init__(self, rng):
        self.plan, self.inventories, self.where = {}, ["inv%d" % i for i in range(rng.randint(1, 2))], {}
        self.langs = {}
        for g in rng.sample(["a", "a2", "b"], rng.randint(1, 3)):
            self.where[g] = rng.choice(self.inventories)
            for w in rng.sample(["w", "w2", "v"], rng.randint(1, 2)):
                self.langs[g, w] = rng.choice(["lat", "grc"])
                for v in rng.sample(["1", "12", "2", "3"], rng.randint(0, 3)):
                    self.plan[g, w, v] = (rng.choice(SUBTYPES), rng.choice(["eng", "fre"]), rng.random() < .8)

    def describe(self):
        return "%s %s %s" % (self.where, self.langs, self.plan)

    def build(self):
        r = CtsCapitainsLocalResolver([], autoparse=False, dispatcher=CollectionDispatcher(self.root(), self.inventories[0]))
        K = r.classes
        groups, works = {}, {}
        for g, i in self.where.items():
            groups[g] = K["textgroup"]("urn:cts:ns:%s" % g, parent=r.inventory.children[i])
        for (g, w), lang in self.langs.items():
            works[g, w] = K["work"]("urn:cts:ns:%s.%s" % (g, w), parent=groups[g])
            works[g, w].lang = lang
        for (g, w, v), (kind, lang, cited) in self.plan.items():
            t = K[kind]("urn:cts:ns:%s.%s.%s" % (g, w, v), parent=works[g, w], lang=None if kind == "edition" else lang)
            t.citation = K["citation"](name="line") if cited else None
        return r

    def root(self):
        root = CtsTextInventoryCollection("root")
        for i in self.inventories:
            CtsTextInventoryMetadata(i, parent=root)
        return root


def seen(texts):
    return [(t.id, t.subtype, t.lang, t.citation) for t in texts]


@M.goal(of=(CtsCapitainsLocalResolver.getMetadata, CtsCapitainsLocalResolver.__getTextMetadata__), cat=Custom(None, Catalogue), bounded=True, samples=200)
def metadata(g, cat):
    r = cat.build()
    before = seen(r.texts)
    g.ensures("the whole catalogue", r.getMetadata() is r.inventory)
    for i in cat.inventories:
        g.ensures("an inventory", r.getMetadata(i) is r.inventory[i])
    urns = {"urn:cts:ns:%s" % x for x in cat.where} | {"urn:cts:ns:%s.%s" % x for x in cat.langs} | {t[0] for t in before}
    for u in sorted(urns) + ["urn:cts:ns:zz", "urn:cts:ns:a.zz", "urn:cts:ns:a.w.zz", "urn:cts:ns:a.w.1"]:
        want = [t for t in before if (t[0] == u or t[0].startswith(u + ".")) and t[3] is not None]
        out = g.outcome(lambda: r.getMetadata(u))
        if not want:
            g.ensures("nothing readable below", out == ("raise", "UnknownCollection"))
            continue
        g.ensures("a collection with this identifier", out[0] == "ok" and out[1].id == u)
        found = [out[1]] if len(u.split(".")) == 3 else out[1].readableDescendants
        g.ensures("exactly the readable texts below, as in the catalogue", sorted(seen(found), key=str) == sorted(want, key=str))
    g.ensures("the catalogue is as before", seen(r.texts) == before)
