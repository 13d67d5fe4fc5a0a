"""C06: citation trees: iteration, count, depth, levels and matching agree with the nesting of the levels."""
import json
from pyvc.goals import *
from pyvc import interp as I
from contracts.domains import *
from MyCapytain.common.reference import CtsReference, Citation
from MyCapytain.common.reference._base import BaseCitation, BaseCitationSet
from MyCapytain.common.reference import DtsCitation, DtsCitationSet

M = Module("C06")


# ---------------------------------------------------------------- specification (recursive on the tree)
def preorder(c):
    """The levels of a tree, each level before those nested in it, in order."""
    return [c] + [d for child in c.children for d in preorder(child)]


def nested(c):
    """Number of levels strictly below c."""
    return len(c.children) + sum([nested(child) for child in c.children])


def longest(c):
    """Number of levels on the longest way down from c, c included."""
    if len(c.children) == 0:
        return 1
    return 1 + max([longest(child) for child in c.children])


def below(c, k):
    """The levels k+1 steps below c, in order."""
    if k == 0:
        return list(c.children)
    return [d for child in c.children for d in below(child, k - 1)]


# ---------------------------------------------------------------- induction hypothesis for abstract subtrees
def tree_kind(cls, name):
    def seq(it, r, tag, extra=()):
        e = it.e
        srt = [r.t.sort()] + [z3.IntSort()] * (len(extra) + 1)
        f = e.uf("%s_%s" % (name, tag), *(srt + [r.t.sort()]))
        n = e.uf("%s_%s_n" % (name, tag), *(srt[:-1] + [z3.IntSort()]))(r.t, *extra)
        e.fact(n >= (1 if tag == "pre" else 0))
        key = "%s_%s" % (name, tag) + str([str(x) for x in (r.t,) + tuple(extra)])

        def at(j):
            return Ref(kind, f(r.t, *(list(extra) + [j])))
        if tag == "pre":
            e.fact(f(r.t, z3.IntVal(0)) == r.t)
        return [("b", Base(n, at, ("ih", key)))]

    def num(tag, lo):
        def get(it, r):
            t = it.e.uf("%s_%s" % (name, tag), r.t.sort(), z3.IntSort())(r.t)
            it.e.fact(t >= lo)
            it.e.under_contract.add("%s.%s of a subtree (induction hypothesis)" % (cls.__name__, tag))
            return mkint(t)
        return get

    def iterate(it, r):
        it.e.under_contract.add("%s.__iter__ of a subtree (induction hypothesis)" % cls.__name__)
        return seq(it, r, "pre")

    def getitem(it, r, i):
        it.e.under_contract.add("%s.__getitem__ of a subtree (induction hypothesis)" % cls.__name__)
        if not it.truth(it.compare(I.ast.GtE(), i, 0)):
            raise Unsupported("negative level of a subtree")
        return I.IterVal(seq(it, r, "level", (iterm(i),)))
    kind = I.Kind(name, cls=cls, iterate=iterate, getitem=getitem, length=num("len", 0),
                  fields={"depth": num("depth", 1)}, truth=lambda it, r: True)
    kind.seq, kind.num = seq, num
    return kind


KINDS = {}


def install(it):
    for cls in (BaseCitation, Citation):
        if cls not in KINDS:
            KINDS[cls] = tree_kind(cls, "Tree_" + cls.__name__)
    kind = KINDS[BaseCitation]

    class Spec(object):
        def __init__(self, fn, abstract):
            self.fn, self.abstract = fn, abstract

        def apply(self, it, args, kw):
            if isinstance(args[0], Ref):
                return self.abstract(it, *args)
            return it.call_real(self.fn, args, kw)
    it.contracts[preorder] = Spec(preorder, lambda it, r: PList(r.kind.seq(it, r, "pre")))
    it.contracts[nested] = Spec(nested, lambda it, r: r.kind.length(it, r))
    it.contracts[longest] = Spec(longest, lambda it, r: r.kind.fields["depth"](it, r))
    it.contracts[below] = Spec(below, lambda it, r, k: PList(r.kind.seq(it, r, "level", (iterm(k),))))


M.setup(install)


def sym_children(it, name):
    kind = KINDS[BaseCitation]
    f = it.e.uf(name + ".at", z3.IntSort(), kind.sort)
    return sym_list(it, name, lambda j: Ref(kind, f(j)))


def gen_tree(rng, cls=DtsCitation, depth=3):
    kids = [gen_tree(rng, cls, depth - 1) for _ in range(rng.randint(0, 3))] if depth else []
    return cls(name=rng.choice("abc"), children=kids)


def gen_children(rng):
    return [gen_tree(rng, depth=rng.randint(0, 2)) for _ in range(rng.randint(0, 3))]


CHILDREN = Custom(sym_children, gen_children)


def grown(c, children):
    for child in children:
        c.add_child(child)
    return c


@M.goal(of=(BaseCitation.__iter__, BaseCitation.depth, BaseCitationSet.__len__, BaseCitationSet.add_child), children=CHILDREN)
def tree(g, children):
    c = grown(BaseCitation(name="x"), children)
    g.ensures("children", c.children == children)
    g.ensures("iteration is the preorder", list(c) == preorder(c))
    g.ensures("length counts nested levels", len(c) == nested(c))
    g.ensures("depth is the longest way down", c.depth == longest(c))
    g.ensures("emptiness", c.is_empty() == (len(children) == 0))


@M.goal(of=(BaseCitationSet.__iter__, BaseCitationSet.depth, BaseCitationSet.__len__), children=CHILDREN, cls=Choice(BaseCitationSet, DtsCitationSet))
def forest(g, children, cls):
    s = grown(cls(), children)
    g.ensures("iteration is the preorder of each tree", list(s) == [d for child in children for d in preorder(child)])
    g.ensures("length counts nested levels", len(s) == nested(s))
    g.ensures("depth is the longest way down", s.depth == longest(s) - 1)
    g.ensures("emptiness", s.is_empty() == (len(children) == 0))


@M.goal(of=BaseCitationSet.__getitem__, children=CHILDREN, k=Int(0, glo=0, ghi=4))
def levels(g, children, k):
    s = grown(BaseCitationSet(), children)
    g.ensures("levels of a set", list(s[k]) == below(s, k))
    c = grown(BaseCitation(name="x"), children)
    g.ensures("levels of a citation", list(c[k]) == below(c, k))


@M.goal(of=BaseCitationSet.__getitem__, children=CHILDREN, k=Int(1, glo=1, ghi=5))
def levels_from_the_end(g, children, k):
    s = grown(BaseCitationSet(), children)
    d = s.depth
    r = g.outcome(lambda: list(s[-k]))
    if k <= d:
        g.ensures("counted from the deepest level", r == ("ok", below(s, d - k)))
    else:
        g.ensures("too deep", r == ("raise", "CitationDepthError"))


@M.goal(of=(BaseCitationSet.children,), n=Choice(0, 1, 2, 3), bad=Choice(None, "text", 3))
def children_setter(g, n, bad):
    kids = [BaseCitation(name=str(i)) for i in range(n)]
    s = BaseCitationSet(children=kids + [None])
    g.ensures("keeps citations only", s.children == kids)
    g.ensures("root of the children", all([k.root is s and not k.is_root() for k in kids]))
    c = BaseCitation(name="x", children=kids)
    g.ensures("root of nested levels", all([k.root is c for k in kids]))
    if bad is not None:
        g.ensures("other objects are refused", g.outcome(lambda: BaseCitationSet(children=[bad])) == ("raise", "TypeError"))


# ---------------------------------------------------------------- CTS citations: one level inside the other
def sym_child(it, name):
    kind = KINDS[Citation]
    return Ref(kind, z3.Const(name, kind.sort))


def chain(rng, depth):
    c = None
    for i in range(depth):
        c = Citation(name="level%d" % (depth - i), refsDecl="/a" + "/b[@n='$1']" * (depth - i), child=c)
    return c


CHAIN = Custom(sym_child, lambda rng: chain(rng, rng.randint(1, 4)))


def cts_chain(it):
    kind = KINDS[Citation]

    def length(it, r):
        n = it.e.uf("Tree_Citation_pre_n", r.t.sort(), z3.IntSort())(r.t)
        it.e.fact(n >= 1)
        return mkint(n)

    def set_root(it, r, v):
        if r.t.get_id() not in [x[0] for x in it.e.state.get("roots", ())]:
            it.e.keep.append(r.t)
        it.e.state["roots"] = tuple(it.e.state.get("roots", ())) + ((r.t.get_id(), v),)
    kind.length = length
    kind.fields["set:root"] = set_root
    kind.fields.pop("_root", None)
    kind.methods["match"] = lambda it, r, a, kw: Ref(kind, it.e.uf("Tree_match", r.t.sort(), z3.StringSort(), r.t.sort())(
        r.t, sterm(it.to_str(a[0]))))


@M.goal(of=(BaseCitation.__iter__, Citation.__len__, Citation.__getitem__), child=Opt(CHAIN), k=Int(glo=-6, ghi=6), setup=cts_chain)
def cts_levels(g, child, k):
    c = Citation(name="x", refsDecl="/a[@n='$1']", child=child)
    all_levels = [c] + (list(child) if child is not None else [])
    g.ensures("iteration from the top down", list(c) == all_levels)
    g.ensures("length is the number of levels", len(c) == len(all_levels))
    g.ensures("child", c.child is child)
    r = g.outcome(lambda: c[k])
    if 0 <= k and k < len(all_levels):
        g.ensures("level by number", r == ("ok", all_levels[k]))
    elif k >= 0:
        g.ensures("no such level", r == ("raise", "KeyError"))


@M.goal(of=(Citation.match,), child=Opt(CHAIN), parts=ListOf(Str(lacks="-@.", nonempty=True), minlen=1, maxgen=5), as_text=Bool(), setup=cts_chain)
def cts_match(g, child, parts, as_text):
    c = Citation(name="x", refsDecl="/a[@n='$1']", child=child)
    text = ".".join(parts)
    r = g.outcome(lambda: c.match(text if as_text else CtsReference(text)))
    if len(parts) <= len(c):
        g.ensures("level of the depth of the reference", r == ("ok", c[len(parts) - 1]))
    else:
        g.ensures("deeper than the citation", r == ("raise", "KeyError"))


def cts_top(it):
    """The levels given are those of a whole scheme."""
    cts_chain(it)
    KINDS[Citation].fields["_root"] = lambda it, r: None


@M.goal(of=(BaseCitation.root,), top=CHAIN, n=Choice(0, 1, 2, 3), setup=cts_top)
def cts_root(g, top, n):
    """Bounded in the number of levels (1 to 4) between a level and the top."""
    c = top
    for i in range(n):
        below = Citation(name="x", refsDecl="/a[@n='$1']")
        below.root = c
        c = below
    g.ensures("the top of the scheme", c.root is top)


@M.goal(of=(Citation.match,), root=CHAIN, text=PASSAGE_TEXT, setup=cts_top)
def cts_match_from_below(g, root, text):
    g.requires(CtsReference(text).depth <= len(root))
    c = Citation(name="x", refsDecl="/a[@n='$1']")
    c.root = root
    g.ensures("same as from the root", c.match(text) == root.match(text))


BOUND = dict(bounded=True, samples=300)


@M.goal(of=(Citation.match, Citation.root), root=Custom(None, lambda rng: chain(rng, rng.randint(1, 4))), **BOUND)
def cts_match_everywhere(g, root):
    levels = list(root)
    g.ensures("one top", all(c.root is levels[0] for c in levels))
    for i in range(len(levels)):
        for c in levels:
            g.ensures("same from every level", c.match(".".join(["1"] * (i + 1))) is levels[i])


def patterns(rng):
    n = rng.randint(1, 5)
    return [("level%d%s" % (i, rng.choice(["", "é", "&amp;"])), "/tei:TEI/tei:text" + "".join("/tei:div[@n='$%d']" % (j + 1) for j in range(i + 1)))
            for i in range(n)]


@M.goal(of=(Citation.ingest,), levels=Custom(None, patterns), as_list=Bool(), **BOUND)
def cts_ingest(g, levels, as_list):
    from lxml import etree
    xml = "<refsDecl xmlns='http://www.tei-c.org/ns/1.0' n='CTS'>%s</refsDecl>" % "".join(
        "<cRefPattern n='%s' matchPattern='(.+)' replacementPattern=\"#xpath(%s)\"/>" % (n, r) for n, r in reversed(levels))
    node = etree.fromstring(xml)
    c = Citation.ingest([node] if as_list else node, ".//tei:cRefPattern")
    g.ensures("nothing to read", Citation.ingest([]) is None and Citation.ingest("text") is None)
    found = list(c)
    g.ensures("names from the top down", [x.name for x in found] == [n.replace("&amp;", "&") for n, _ in levels])
    g.ensures("patterns", [x.refsDecl for x in found] == [r for _, r in levels])
    g.ensures("top is the root", c.is_root() and all(x.root is c for x in found))
    for i in range(len(levels)):
        for x in found:
            g.ensures("match", x.match(".".join("abcde"[:i + 1])) is found[i])


def gen_dts(rng, depth=3):
    d = {"name": rng.choice(["book", "poem", "line", "é"])}
    if depth and rng.random() < .7:
        d["children"] = [gen_dts(rng, depth - 1) for _ in range(rng.randint(1, 3))]
    return d


def dts_json(d):
    o = {"https://w3id.org/dts/api#citeType": [{"@value": d["name"]}]}
    if "children" in d:
        o["https://w3id.org/dts/api#citeStructure"] = [dts_json(x) for x in d["children"]]
    return o


def shape(c):
    return {"name": c.name, **({"children": [shape(x) for x in c.children]} if c.children else {})}


def exported(j, prefix="dts:"):
    o = {"name": j[prefix + "citeType"]}
    if prefix + "citeStructure" in j:
        o["children"] = [exported(x) for x in j[prefix + "citeStructure"]]
    return o


@M.goal(of=(DtsCitationSet.ingest, DtsCitation.ingest, BaseCitation.__export__, BaseCitationSet.__export__), graph=GRAPH,
        trees=Custom(None, lambda rng: [gen_dts(rng) for _ in range(rng.randint(0, 3))]), **BOUND)
def dts_ingest(g, graph, trees):
    from MyCapytain.common.constants import Mimetypes
    s = DtsCitationSet.ingest([dts_json(t) for t in trees])
    g.ensures("structure", [shape(c) for c in s.children] == trees)
    g.ensures("root", all(c.root is s and not c.is_root() for c in s))
    out = s.export(Mimetypes.JSON.DTS.Std, context=False, namespace_manager=get_graph().namespace_manager)
    g.ensures("exports back", [exported(x) for x in out] == trees)
    full = s.export(Mimetypes.JSON.DTS.Std, context=True)
    g.ensures("exports back with its context", full == {"@context": {"dts": "https://w3id.org/dts/api#"}, "dts:citeStructure": out})
    for c, o in zip(s.children, out):
        g.ensures("one level with its context", c.export(Mimetypes.JSON.DTS.Std, context=True) ==
                  dict(o, **{"@context": {"dts": "https://w3id.org/dts/api#"}}))
