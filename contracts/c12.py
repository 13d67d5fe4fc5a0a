"""C12: CTS catalogues: merging works and text groups, counting and selecting texts."""
from pyvc.goals import *
from pyvc import interp as I
from contracts.domains import *
from MyCapytain.resources.prototypes.cts.inventory import (
    CtsTextMetadata, CtsEditionMetadata, CtsTranslationMetadata, CtsCommentaryMetadata, CtsWorkMetadata, CtsTextgroupMetadata,
    CtsTextInventoryMetadata, CtsTextInventoryCollection, PrototypeCtsCollection)
from MyCapytain.resources.prototypes.metadata import ResourceCollection
from MyCapytain.common.constants import RDF_NAMESPACES, bind_graph, get_graph, set_graph
from MyCapytain.common.reference import Citation
from rdflib.namespace import DC

M = Module("C12")
M.assumptions.append("merges: each entry of the other collection is added by the step proved by work_step and group_step over any "
                     "dictionary; any number of entries follows by induction on the entries, and runs with 0 to 2 entries confirm it")
PART = Str(nonempty=True, lacks=":.#@-", gen=lambda rng: rng.choice(["a", "b", "c", "d"]))
N = Choice(0, 1, 2)
KINDS = (CtsEditionMetadata, CtsTranslationMetadata, CtsCommentaryMetadata)
KIND3 = Choice(0, 1, 2)


LABEL, TITLE = RDF_NAMESPACES.CTS.term("label"), RDF_NAMESPACES.CTS.term("title")


def text_of(work, version, kind):
    return KINDS[kind](work.id + "." + version, parent=work, lang="lat")


# ---------------------------------------------------------------- merging works
@M.goal(of=(CtsWorkMetadata.update, CtsWorkMetadata.__len__, CtsWorkMetadata.texts.fget), mine=N, theirs=N,
        m=ListOf(PART, minlen=2, maxgen=2), t=ListOf(PART, minlen=2, maxgen=2), k=KIND3)
def merge_works(g, mine, theirs, m, t, k):
    """Bounded in the number of texts (0 to 2 each)."""
    group = CtsTextgroupMetadata("urn:cts:ns:tg")
    a, b = CtsWorkMetadata("urn:cts:ns:tg.w", parent=group), CtsWorkMetadata("urn:cts:ns:tg.w")
    for i in range(mine):
        text_of(a, m[i], 0)
    for i in range(theirs):
        text_of(b, t[i], k)
    before, other = dict(a.children), dict(b.children)
    result = a.update(b)
    g.ensures("itself", result is a and a.parent is group)
    g.ensures("as many as distinct identifiers", len(a) == len(set(list(before) + list(other))))
    g.ensures("added texts come from the other", all(a.texts[u] is x and x.parent is a for u, x in other.items()))
    g.ensures("the others stay", all(a.texts[u] is x and x.parent is a for u, x in before.items() if u not in other))
    g.ensures("members", all(x.id == u for u, x in a.texts.items()) and len(a.members) == len(a))


@M.goal(of=(CtsWorkMetadata.update, CtsTextgroupMetadata.update), a=PART, b=PART, c=PART, d=PART, what=Choice(0, 1, 2, 3, 4))
def merge_errors(g, a, b, c, d, what):
    w = CtsWorkMetadata("urn:cts:ns:" + a + "." + b)
    tg = CtsTextgroupMetadata("urn:cts:ns:" + a)
    text_of(w, c, 0)
    before = dict(w.children)
    if what == 0:
        other = CtsWorkMetadata("urn:cts:ns:" + a + "." + d)
        text_of(other, c, 1)
        r = g.outcome(lambda: w.update(other))
        if b == d:
            g.ensures("same work", r[0] == "ok" and r[1] is w)
        else:
            g.ensures("another work", r == ("raise", "InvalidURN") and w.children == before)
    elif what == 1:
        g.ensures("not a work", g.outcome(lambda: w.update(tg)) == ("raise", "TypeError") and w.children == before)
    elif what == 2:
        other = CtsTextgroupMetadata("urn:cts:ns:" + d)
        work = CtsWorkMetadata("urn:cts:ns:" + d + "." + c, parent=other)
        r = g.outcome(lambda: tg.update(other))
        if a == d:
            g.ensures("same group", r[0] == "ok" and r[1] is tg and len(tg.works) == 1)
        else:
            g.ensures("another group", r == ("raise", "InvalidURN") and len(tg.works) == 0 and work.parent is other)
    elif what == 3:
        g.ensures("not a group", g.outcome(lambda: tg.update(w)) == ("raise", "TypeError") and len(tg.works) == 0)
    else:
        g.ensures("not a collection", g.outcome(lambda: w.update(c)) == ("raise", "TypeError") and
                  g.outcome(lambda: tg.update(None)) == ("raise", "TypeError"))


# ---------------------------------------------------------------- merging groups
def fill(group, works, texts):
    for i in range(len(works)):
        work = CtsWorkMetadata(group.id + "." + works[i], parent=group)
        for t in texts[i]:
            text_of(work, t, 1)


def content(group):
    return {u: list(w.children) for u, w in group.works.items()}


@M.goal(of=(CtsTextgroupMetadata.update, CtsWorkMetadata.update, CtsTextgroupMetadata.works.fget), mine=N, theirs=N,
        m=ListOf(PART, minlen=2, maxgen=2), t=ListOf(PART, minlen=2, maxgen=2), x=PART, y=PART, z=PART)
def merge_groups(g, mine, theirs, m, t, x, y, z):
    """Bounded in the number of works (0 to 2 each) and texts (1 or 2 each)."""
    top = CtsTextInventoryMetadata("inv")
    a, b = CtsTextgroupMetadata("urn:cts:ns:tg", parent=top), CtsTextgroupMetadata("urn:cts:ns:tg")
    fill(a, [m[i] for i in range(mine)], [[x], [x]])
    fill(b, [t[i] for i in range(theirs)], [[y], [y, z]])
    before, other, works, objects = content(a), content(b), dict(a.works), dict(b.works)
    result = a.update(b)
    g.ensures("itself", result is a and a.parent is top)
    g.ensures("the other is left alone", content(b) == other and all(w.parent is b and b.works[u] is w for u, w in objects.items()))
    g.ensures("works of both", len(a.works) == len(set(list(before) + list(other))) and
              all(u in a.works for u in before) and all(u in a.works for u in other))
    g.ensures("known works stay themselves", all(a.works[u] is w for u, w in works.items()))
    g.ensures("added works are copies", all(a.works[u] is not objects[u] for u in other))
    g.ensures("every work is in the group", all(w.parent is a and w.id == u for u, w in a.works.items()))
    for u, w in a.works.items():
        want = set(before.get(u, []) + other.get(u, []))
        g.ensures("texts of both, in their work", set(w.texts) == want and len(w) == len(want) and
                  all(t.parent is w and t.id == v for v, t in w.texts.items()))
    g.ensures("count", len(a) == sum(len(w) for w in a.works.values()))


# ---------------------------------------------------------------- one entry added to any dictionary (the step of the induction)
class Known(object):
    """Any dictionary: `known` says which keys it had, each standing for `value`."""
    def __init__(self, known, value):
        self.known, self.value, self.written = known, value, []

    def __contains__(self, key):
        return self.known(key) or any(k == key for k, v in self.written)

    def __setitem__(self, key, value):
        self.written.append((key, value))

    def __getitem__(self, key):
        for k, v in reversed(self.written):
            if k == key:
                return v
        if self.known(key):
            return self.value
        raise KeyError(key)

    def get(self, key, default=None):
        return self[key] if key in self else default

    def setdefault(self, key, value):
        if key not in self:
            self[key] = value
        return self[key]

    def update(self, other):
        for k, v in other.items():
            self[k] = v


def sym_known(it, name):
    f = it.e.uf(name, z3.StringSort(), z3.BoolSort())
    return I.Native(lambda it_, a, k: SBool(f(sterm(a[0]))))


KNOWN = Custom(sym_known, lambda rng: (lambda ks: lambda k: k in ks)(
    ["urn:cts:ns:tg.%s" % x for x in rng.sample("abcd", rng.randint(0, 3))] + ["urn:cts:ns:tg.w.%s" % x for x in rng.sample("abcd", 2)]))


class OneWork(CtsWorkMetadata):
    held = None
    children = property(lambda self: self.held)


class OneGroup(CtsTextgroupMetadata):
    held = None
    children = property(lambda self: self.held)


@M.goal(of=(CtsWorkMetadata.update,), known=KNOWN, v=PART, kind=KIND3)
def work_step(g, known, v, kind):
    a, b = OneWork("urn:cts:ns:tg.w"), CtsWorkMetadata("urn:cts:ns:tg.w")
    x = text_of(b, v, kind)
    a.held = Known(known, "what it had")
    a.update(b)
    g.ensures("the entry is the text, under its own key only", a.held[x.id] is x and all(k == x.id for k, t in a.held.written))
    g.ensures("it belongs to the work", x.parent is a)


@M.goal(of=(CtsTextgroupMetadata.update,), known=KNOWN, w=PART, v=PART, u=PART)
def group_step(g, known, w, v, u):
    a, b = OneGroup("urn:cts:ns:tg"), CtsTextgroupMetadata("urn:cts:ns:tg")
    x = CtsWorkMetadata("urn:cts:ns:tg." + w, parent=b)
    text_of(x, v, 1)
    mine = CtsWorkMetadata("urn:cts:ns:tg." + w)
    text_of(mine, u, 1)
    a.held = Known(known, mine)
    a.update(b)
    now = a.held[x.id]
    g.ensures("only its own key", all(k == x.id for k, t in a.held.written))
    g.ensures("it belongs to the group", now.parent is a and x.parent is b and b.works[x.id] is x and len(x.texts) == 1)
    if known(x.id):
        g.ensures("the known work with the texts of both", now is mine and set(now.texts) == {x.id + "." + v, x.id + "." + u})
    else:
        g.ensures("a copy of the work", now is not x and now.id == x.id and now.urn == x.urn and list(now.texts) == [x.id + "." + v])


# ---------------------------------------------------------------- counting and selecting, any members
class Held(object):
    """A dictionary seen through its values only."""
    def __init__(self, items):
        self.held = items

    def values(self):
        return self.held

    def items(self):
        return [("key", x) for x in self.held]

    def __len__(self):
        return len(self.held)


def inner(name, of):
    """What an abstract object holds under a name: any number of abstract objects of the kind given."""
    def get(it, r):
        f = it.e.uf(name + ".at", r.kind.sort, z3.IntSort(), of.sort)
        n = it.e.uf(name + ".n", r.kind.sort, z3.IntSort())
        it.e.fact(n(r.t) >= 0)
        return it.call(Held, [PList([("b", Base(n(r.t), lambda j: Ref(of, f(r.t, j)), ident=(name, r.t)))])])
    return get


def is_a(i):
    return lambda it, r: mkbool(it.e.uf("class_of", ITEM.sort, z3.IntSort())(r.t) == i)


def texts_of_work(x):
    return len(x.texts)


def texts_of_group(x):
    return len([t for w in x.works.values() for t in w.texts.values()])


def texts_of_inventory(x):
    return len([t for y in x.textgroups.values() for w in y.works.values() for t in w.texts.values()])


# any text (of any class and language), and any work, group or inventory (whose length is the number of texts in it)
ITEM = I.Kind("Item", fields={"lang": lambda it, r: SStr((it.e.uf("lang_of", ITEM.sort, z3.StringSort())(r.t),))},
              isinst={CtsEditionMetadata: is_a(0), CtsTranslationMetadata: is_a(1), CtsCommentaryMetadata: is_a(2)})
WORK = I.Kind("AWork", fields={"texts": inner("texts", ITEM), "children": inner("texts", ITEM)}, length=lambda it, r: it.call(texts_of_work, [r]))
GROUP = I.Kind("AGroup", fields={"works": inner("works", WORK), "children": inner("works", WORK)}, length=lambda it, r: it.call(texts_of_group, [r]))
INVENTORY = I.Kind("AnInventory", fields={"textgroups": inner("textgroups", GROUP), "children": inner("textgroups", GROUP)},
                   length=lambda it, r: it.call(texts_of_inventory, [r]))
HOLDERS = [ITEM, WORK, GROUP, INVENTORY]


class Edition(CtsEditionMetadata):
    lang = None

    def __init__(self, lang):
        self.lang = lang

    def __repr__(self):
        return "%s(%s)" % (type(self).__name__, self.lang)


class Translation(CtsTranslationMetadata):
    lang = None
    __init__, __repr__ = Edition.__init__, Edition.__repr__


class Commentary(CtsCommentaryMetadata):
    lang = None
    __init__, __repr__ = Edition.__init__, Edition.__repr__


class Container(object):
    """A work, group or inventory; its length is the number of texts in it."""
    def __init__(self, items):
        self.texts = self.works = self.textgroups = self.children = Held(items)

    def __len__(self):
        return sum(len(x) if isinstance(x, Container) else 1 for x in self.texts.held)

    def __repr__(self):
        return repr(self.texts.held)


def sym_items(kind):
    def sym(it, name):
        f = it.e.uf(name + ".at", z3.IntSort(), kind.sort)
        return sym_list(it, name, lambda j: Ref(kind, f(j)))
    return sym


def gen_items(rng, depth=0):
    if depth:
        return [Container(gen_items(rng, depth - 1)) for _ in range(rng.randint(0, 3))]
    return [rng.choice([Edition, Translation, Commentary])(rng.choice(["lat", "grc", "eng"])) for _ in range(rng.randint(0, 4))]


def items(depth):
    return Custom(sym_items(HOLDERS[depth]), lambda rng: gen_items(rng, depth))


class AnyWork(CtsWorkMetadata):
    held = ()
    children = property(lambda self: Held(self.held))


class AnyGroup(CtsTextgroupMetadata):
    held = ()
    children = property(lambda self: Held(self.held))


class AnyInventory(CtsTextInventoryMetadata):
    held = ()
    children = property(lambda self: Held(self.held))


class AnyCollection(CtsTextInventoryCollection):
    held = ()
    members = property(lambda self: self.held)


LANGUAGE = Str(nonempty=True, gen=lambda rng: rng.choice(["lat", "grc", "eng"]))


@M.goal(of=(CtsWorkMetadata.get_translation_in, CtsTextMetadata.translations, CtsTextMetadata.editions), texts=items(0), lang=Opt(LANGUAGE))
def select(g, texts, lang):
    w = AnyWork("urn:cts:ns:tg.w")
    w.held = texts
    t = CtsEditionMetadata("urn:cts:ns:tg.w.v")
    t._parent = w
    want = [x for x in texts if isinstance(x, CtsTranslationMetadata) and (lang is None or x.lang == lang)]
    g.ensures("translations of a work", w.get_translation_in(lang) == want)
    g.ensures("translations of a text", t.translations(lang) == want)
    g.ensures("editions of a text", t.editions() == [x for x in texts if isinstance(x, CtsEditionMetadata)])


@M.goal(of=(CtsWorkMetadata.__len__, CtsTextgroupMetadata.__len__, CtsTextInventoryMetadata.__len__, CtsTextInventoryCollection.__len__),
        texts=items(0), works=items(1), groups=items(2), inventories=items(3))
def count(g, texts, works, groups, inventories):
    w, tg, inv, c = AnyWork("urn:cts:ns:tg.w"), AnyGroup("urn:cts:ns:tg"), AnyInventory("inv"), AnyCollection("all")
    w.held, tg.held, inv.held, c.held = texts, works, groups, inventories
    g.ensures("texts of a work", len(w) == len(texts))
    g.ensures("texts of a group", len(tg) == len([t for x in works for t in x.texts.values()]))
    g.ensures("texts of an inventory", len(inv) == len([t for y in groups for x in y.works.values() for t in x.texts.values()]))
    g.ensures("texts of a collection", len(c) == len([t for z in inventories for y in z.textgroups.values()
                                                       for x in y.works.values() for t in x.texts.values()]))


# ---------------------------------------------------------------- texts
@M.goal(of=(CtsTextMetadata.__init__, ResourceCollection.lang.fset, ResourceCollection.lang.fget, CtsTextMetadata.subtype.fget),
        graph=TRIPLES, a=PART, lang=Opt(LANGUAGE), kind=KIND3, s=NODE, p=URI, o=ANYTERM)
def language(g, graph, a, lang, kind, s, p, o):
    """The language given is stored, alone."""
    g.requires(lang is not None)
    x = KINDS[kind]("urn:cts:ns:tg.w." + a)
    before = (s, p, o) in graph
    x.lang = lang
    g.ensures("exactly this statement", ((s, p, o) in graph) == (
        (before and not (s == x.asNode() and p == DC.language)) or (s == x.asNode() and p == DC.language and o == Literal(lang))))
    g.ensures("a text", x.readable and x.members == [] and x.descendants == [] and x.subtype == ("edition", "translation", "commentary")[kind])


@M.goal(of=(CtsTextMetadata.__init__, CtsWorkMetadata.lang.fset, CtsWorkMetadata.lang.fget, ResourceCollection.lang.fget),
        lang=Opt(LANGUAGE), of_work=LANGUAGE, kind=KIND3, other=Opt(LANGUAGE), kind2=KIND3)
def inherited(g, lang, of_work, kind, other, kind2):
    w = CtsWorkMetadata("urn:cts:ns:tg.w")
    w.lang = of_work
    there = {}
    if other is not None:
        y = KINDS[kind2]("urn:cts:ns:tg.w.u", parent=w, lang=other)
        there = {y.id: y}
    x = KINDS[kind]("urn:cts:ns:tg.w.v", parent=w, lang=lang)
    g.ensures("given or that of the work", x.lang == (of_work if lang is None else lang))
    g.ensures("of the work", w.lang == of_work and x.parent is w)
    there[x.id] = x
    g.ensures("among the texts of the work", w.texts == there and (other is None or y.lang == other))


# ---------------------------------------------------------------- equality
ALIKE = [CtsTextgroupMetadata, CtsWorkMetadata, CtsEditionMetadata, CtsTranslationMetadata]
ENDS = ["", ".w", ".w.v", ".w.v"]


@M.goal(of=(PrototypeCtsCollection.__eq__,), a=PART, b=PART, i=Choice(0, 1, 2, 3), j=Choice(0, 1, 2, 3))
def equal(g, a, b, i, j):
    x, y = ALIKE[i]("urn:cts:ns:" + a + ENDS[i]), ALIKE[j]("urn:cts:ns:" + b + ENDS[j])
    g.ensures("same class and URN", (x == y) == (i == j and a == b) and (x != y) == (not (i == j and a == b)))
    g.ensures("itself, and nothing of another type", x == x and not (x == x.id) and not (x == None))


# ---------------------------------------------------------------- what a merged work is
def gen_said(rng):
    return [(rng.choice(["w", "w2"]), rng.choice(["v", "v1", "v2"]), rng.randrange(3), rng.choice(["lat", "eng"]), rng.choice(["Title", "Étiquette & co"]),
             [rng.choice(["book", "poem", "line"]) for _ in range(rng.randint(0, 3))]) for _ in range(rng.randint(0, 4))]


def told(group, said):
    """The text group with these texts, the last one winning."""
    for work, version, kind, lang, label, levels in said:
        w = group.works[group.id + "." + work] if group.id + "." + work in group.works else CtsWorkMetadata(group.id + "." + work, parent=group)
        w.set_cts_property("title", "W " + work, "eng")
        w.lang = "lat"
        t = KINDS[kind](w.id + "." + version, parent=w, lang=lang)
        t.set_cts_property("label", label, "eng")
        c = None
        for i in reversed(range(len(levels))):
            c = Citation(name=levels[i], refsDecl="/tei:TEI" + "".join("/tei:div[@n='$%d']" % (j + 1) for j in range(i + 1)), child=c)
        t.citation = c
        t.path = "/" + t.id


def read(t):
    return (type(t), t.lang, sorted(str(x) for x in t.metadata.get(LABEL)), t.path, None if t.citation is None else [(c.name, c.refsDecl, c.root is t.citation) for c in t.citation])


@M.goal(of=(CtsTextgroupMetadata.update, CtsWorkMetadata.update), bounded=True, samples=200, mine=Custom(None, gen_said), theirs=Custom(None, gen_said), inventory=Bool())
def copied(g, mine, theirs, inventory):
    """Bounded: up to four texts in up to two works on each side."""
    set_graph(bind_graph())
    a = CtsTextgroupMetadata("urn:cts:ns:tg", parent=CtsTextInventoryMetadata("inv") if inventory else None)
    b = CtsTextgroupMetadata("urn:cts:ns:tg")
    told(a, mine)
    told(b, theirs)
    before = {t.id: read(t) for w in a.works.values() for t in w.texts.values()}
    other = {t.id: read(t) for w in b.works.values() for t in w.texts.values()}
    a.update(b)
    want = dict(before)
    want.update(other)
    g.ensures("each text as it was where it comes from", {t.id: read(t) for w in a.works.values() for t in w.texts.values()} == want)
    g.ensures("titles and languages of the works", all([str(x) for x in w.metadata.get(TITLE)] == ["W " + u.split(".")[-1]] and w.lang == "lat" for u, w in a.works.items()))
    g.ensures("the other group is left alone", {t.id: read(t) for w in b.works.values() for t in w.texts.values()} == other)
