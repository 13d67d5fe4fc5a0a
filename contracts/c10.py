"""C10: a passage holds exactly the text from its start to its end, inside its own ancestors."""
from lxml import etree
from pyvc.goals import *
from pyvc import interp as I
from contracts.domains import *
from contracts.documents import Doc, ref
from MyCapytain.common.reference import CtsReference
from MyCapytain.common.utils import xml as X
from MyCapytain.common.utils.xml import passageLoop, normalizeXpath, copyNode, performXpath
from MyCapytain.resources.texts.local.capitains.cts import CapitainsCtsPassage, CapitainsCtsText, _SharedMethods

M = Module("C10")
M.assumptions.append("passageLoop is verified against these contracts: performXpath gives the child of the parent that holds the "
                     "passage looked for, copyNode appends a copy of a node (with or without content), and the recursive "
                     "call, on a shorter path, adds the selection of that child (induction); the three are exercised "
                     "together on real documents by the bounded goals")


# ---------------------------------------------------------------- contracts of the callees
# A copy is [node, with its content, what was put in it].
class Same(object):
    """An element, compared by identity."""
    def __init__(self, node):
        self.node = node

    def __eq__(self, other):
        return self.node is other.node


class Parent(object):
    """An element: kids are its children; looking for `first` finds (first child, flag), anything else (second child, flag)."""
    def __init__(self, kids, first, r1, r2, loop1, loop2):
        self.kids, self.first, self.r1, self.r2, self.loop1, self.loop2 = kids, first, r1, r2, loop1, loop2

    def iterchildren(self, *tags):
        return iter(self.kids)


def copy_contract(node, children=False, parent=False):
    copy = [Same(node), children, []]
    parent[2].append(copy)
    return copy


def find_contract(parent, xpath):
    if xpath == parent.first:
        return parent.r1, parent.loop1
    return parent.r2, parent.loop2


def selection_contract(parent, new_tree, xpath1, xpath2=None, preceding_siblings=False, following_siblings=False):
    new_tree[2].append(("selection", Same(parent), xpath1, xpath2, preceding_siblings, following_siblings))
    return new_tree


CONTRACTS = {"copyNode": copy_contract, "performXpath": find_contract, "passageLoop": selection_contract}
REAL = passageLoop


def install(it):
    for name, f in CONTRACTS.items():
        it.module_overrides[(X.__name__, name)] = f
        it.e.under_contract.add("%s.%s" % (X.__name__, name))


def select(parent, new_tree, *args, **kwargs):
    """passageLoop, its callees replaced by their contracts."""
    saved = {n: getattr(X, n) for n in CONTRACTS}
    for n, f in CONTRACTS.items():
        setattr(X, n, f)
    try:
        return REAL(parent, new_tree, *args, **kwargs)
    finally:
        for n, f in saved.items():
            setattr(X, n, f)


class Select(object):
    def apply(self, it, args, kw):
        return it.call(REAL, args, kw)


def with_contracts(it):
    install(it)
    it.contracts[select] = Select()


# ---------------------------------------------------------------- children
def same_value(it, r, o):
    """== on elements: lxml.objectify compares the values of elements without children, so two elements may well be equal."""
    if not isinstance(o, Ref):
        return False
    f = it.e.uf("same_value", NODE.sort, NODE.sort, z3.BoolSort())
    return SBool(z3.Or(r.t == o.t, f(r.t, o.t)))


NODE = I.Kind("Element", eq=same_value)


class Kid(object):
    def __init__(self, n):
        self.n = n

    def __eq__(self, other):
        return isinstance(other, Kid)

    def describe(self):
        return "<%s>" % self.n


def sym_kid(it, name):
    return Ref(NODE, z3.Const(name, NODE.sort))


def sym_kids(it, name):
    f = it.e.uf(name + ".at", z3.IntSort(), NODE.sort)
    r1, r2 = z3.Const("r1", NODE.sort), z3.Const("r2", NODE.sort)
    it.e.fact(r1 != r2)

    def at(j):
        it.e.fact(z3.And(f(j) != r1, f(j) != r2))
        return Ref(NODE, f(j))
    return sym_list(it, name, at)


KIDS = Custom(sym_kids, lambda rng: [Kid(rng.random()) for _ in range(rng.randint(0, 3))])
KID = Custom(sym_kid, lambda rng: Kid("r"))
P1 = Choice(["a"], ["a", "b"], ["a", "b", "c"], ["/a"], ["/a", "b"])
P2 = Choice(["a"], ["d"], ["a", "e"], ["d", "e"], ["d", "e", "f"], ["/a"], ["/d", "e"])


def step(path):
    return "./" + path[0] + ("[./" + "/".join(path[1:]) + "]" if len(path) > 1 else "")


def full(nodes):
    return [[Same(n), True, []] for n in nodes]


def partial(node, rest, *selection):
    """A node with all its content when nothing is left to look for, with the selection otherwise."""
    return [Same(node), len(rest) == 0, [("selection", Same(node)) + selection] if len(rest) else []]


@M.goal(of=(passageLoop,), a=KIDS, b=KIDS, c=KIDS, r1=KID, r2=KID, p1=P1, p2=P2, loop1=Bool(), loop2=Bool(), setup=with_contracts)
def between(g, a, b, c, r1, r2, p1, p2, loop1, loop2):
    g.requires(step(p1) != step(p2))
    parent = Parent(a + [r1] + b + [r2] + c, step(p1), r1, r2, loop1, loop2)
    tree = ["root", False, []]
    out = select(parent, tree, p1, p2)
    rest1, rest2 = p1 if loop1 else p1[1:], p2 if loop2 else p2[1:]
    g.ensures("the tree given", out is tree and tree[0] == "root")
    g.ensures("from the start, all between, to the end",
              tree[2] == [partial(r1, rest1, rest1, None, False, True)] + full(b) + [partial(r2, rest2, rest2, None, True, False)])


@M.goal(of=(passageLoop,), a=KIDS, c=KIDS, r1=KID, p1=P1, p2=P2, loop1=Bool(), loop2=Bool(), setup=with_contracts)
def inside_one_child(g, a, c, r1, p1, p2, loop1, loop2):
    """Start and end are in the same child: only that child is kept, and searched with what is left of both paths."""
    parent = Parent(a + [r1] + c, step(p1), r1, r1, loop1, loop1 if p1 == p2 else loop2)
    tree = ["root", False, []]
    out = select(parent, tree, p1, p2)
    rest1 = p1 if loop1 else p1[1:]
    rest2 = p2 if parent.loop2 else p2[1:]
    g.requires((len(rest1) == 0) == (len(rest2) == 0))
    g.ensures("the tree given", out is tree)
    g.ensures("only this child", tree[2] == [partial(r1, rest1, rest1, rest2, False, False)])


@M.goal(of=(passageLoop,), a=KIDS, c=KIDS, r1=KID, p1=P1, loop1=Bool(), before=Bool(), setup=with_contracts)
def one_end(g, a, c, r1, p1, loop1, before):
    """All that precedes the end of the passage, or all that follows its start."""
    parent = Parent(a + [r1] + c, step(p1), r1, r1, loop1, loop1)
    tree = ["root", False, []]
    if before:
        out = select(parent, tree, p1, None, preceding_siblings=True)
    else:
        out = select(parent, tree, p1, None, following_siblings=True)
    rest = p1 if loop1 else p1[1:]
    kept = [partial(r1, rest, rest, None, before, not before)]
    g.ensures("the tree given", out is tree)
    g.ensures("this child and all on that side", tree[2] == (full(a) + kept if before else kept + full(c)))


STEP = Str(lacks="/", nonempty=True, gen=lambda rng: rng.choice(["tei:l[@n='1']", "tei:div[@n='a']", "a"]))


@M.goal(of=(normalizeXpath,), a=STEP, b=STEP, c=STEP, d=STEP, n=Choice(1, 2, 3, 4), double=Choice(*[(x, y, z) for x in (False, True) for y in (False, True) for z in (False, True)]))
def steps(g, a, b, c, d, n, double):
    """Bounded in the number of steps (1 to 4)."""
    names = [a, b, c, d][:n]
    text, want = "/" + a, []
    for i in range(1, n):
        text = text + ("//" if double[i - 1] else "/") + names[i]
        want = want + [("/" if double[i - 1] else "") + names[i]]
    g.ensures("one step for each, descendants marked", normalizeXpath(text.split("/")[2:]) == want)


# ---------------------------------------------------------------- bounded: real documents
def gen_ends(rng):
    return [rng.random() for _ in range(4)]


def pick(doc, ends):
    """Two passages of the document, the first not after the second, maybe of different levels."""
    l1, l2 = 1 + int(ends[0] * doc.depth), 1 + int(ends[1] * doc.depth)
    r1, r2 = doc.refs(l1), doc.refs(l2)
    return r1[int(ends[2] * len(r1))], r2[int(ends[3] * len(r2))]


def leaves(doc, start, end):
    """The deepest passages from start to end."""
    refs = doc.refs(doc.depth)
    first = min(i for i, r in enumerate(refs) if r[:len(start)] == start)
    last = max(i for i, r in enumerate(refs) if r[:len(end)] == end)
    return refs[first:last + 1] if first <= last else None


def words_of(node):
    return [w for w in " ".join(node.xpath(".//text()[not(ancestor::tei:note)]", namespaces={"tei": "http://www.tei-c.org/ns/1.0"})).split()]


def numbered(node, path=()):
    """Paths of @n of the elements without numbered element inside."""
    out = []
    for e in node.iterchildren(tag=etree.Element):
        p = path + ((e.get("n"),) if e.get("n") is not None else ())
        deeper = numbered(e, p)
        out += deeper if deeper else ([p] if e.get("n") is not None else [])
    return out


def ancestors(node):
    out = []
    while node is not None:
        out.insert(0, (node.tag, dict(node.attrib)))
        node = node.getparent()
    return [(t, {k: v for k, v in a.items() if "codespeak" not in k}) for t, a in out]


@M.goal(of=(_SharedMethods.getTextualNode, passageLoop, performXpath, copyNode), doc=Custom(None, lambda rng: Doc(rng, depth=rng.randint(1, 4))),
        ends=Custom(None, gen_ends), bounded=True, samples=600)
def passages(g, doc, ends):
    start, end = pick(doc, ends)
    want = leaves(doc, start, end)
    single = start == end
    g.requires(want and (single or (start[:len(end)] != end and end[:len(start)] != start)))
    t = doc.text(urn=doc.urn)
    before = etree.tostring(t.xml)
    text = ref(start) if single else ref(start) + "-" + ref(end)
    p = t.getTextualNode(CtsReference(text))
    g.ensures("document unchanged", etree.tostring(t.xml) == before)
    g.ensures("exactly the words from start to end", words_of(p.resource) == [w for r in want for w in doc.words(r)])
    g.ensures("exactly the passages from start to end", numbered(p.resource) == want)
    known = {e.tag for e in t.xml.iter(etree.Element)}
    g.ensures("no element of another kind", all(e.tag in known for e in p.resource.iter(etree.Element)))
    node = "http://www.tei-c.org/ns/1.0"
    if single:
        inside = p.resource.xpath("//*[local-name()='body']//*[@n='%s']" % start[-1])[-1:] if len(start) == doc.depth else []
        for x in inside:
            orig = t.xml.xpath("//*[local-name()='body']" + "".join("//*[@n='%s']" % n for n in start))[0]
            g.ensures("inside its own ancestors", ancestors(x) == ancestors(orig))
    g.ensures("root", p.resource.tag == "{%s}TEI" % node)
    g.ensures("reference and urn", str(p.reference) == text and str(p.urn) == doc.urn + ":" + text)
    g.ensures("citation", p.citation is list(t.citation)[len(start) - 1])
    g.ensures("same by text", etree.tostring(t.getTextualNode(text).resource) == etree.tostring(p.resource))
    if single:
        g.ensures("same by list", etree.tostring(t.getTextualNode(list(start)).resource) == etree.tostring(p.resource))
        s = t.getTextualNode(CtsReference(text), simple=True)
        g.ensures("simple passage is the element itself", s.resource is t.xml.xpath("//*[local-name()='body']" + "".join(
            "//*[@n='%s']" % n for n in start))[0] or len(doc.words(start)) and words_of(s.resource) == doc.words(start))
        g.ensures("simple reference and urn", str(s.reference) == text and str(s.urn) == doc.urn + ":" + text)
    g.ensures("passage of a passage", words_of(p.getTextualNode(CtsReference(ref(want[0]))).resource) == doc.words(want[0]))
    inner = p.getTextualNode(ref(want[-1]))
    g.ensures("passage of a passage, by text", words_of(inner.resource) == doc.words(want[-1]) and str(inner.reference) == ref(want[-1]) and str(inner.urn) == doc.urn + ":" + ref(want[-1]))
    if single:
        last = s.getTextualNode(ref(want[-1]))
        g.ensures("passage of a simple passage, by text", words_of(last.resource) == doc.words(want[-1]) and str(last.reference) == ref(want[-1]) and str(last.urn) == doc.urn + ":" + ref(want[-1]))


@M.goal(of=(_SharedMethods.getTextualNode,), doc=Custom(None, Doc), extra=Choice("x", "y"), bounded=True, samples=100)
def unknown(g, doc, extra):
    t = doc.text()
    deep = ref(doc.refs(doc.depth)[0] + (extra,))
    g.ensures("too deep", g.outcome(lambda: t.getTextualNode(deep)) == ("raise", "CitationDepthError"))
    g.ensures("too deep, simple", g.outcome(lambda: t.getTextualNode(CtsReference(deep), simple=True)) == ("raise", "CitationDepthError"))
    g.ensures("unknown passage is an error", g.outcome(lambda: t.getTextualNode(extra))[0] == "raise")
    g.ensures("unknown passage, simple", g.outcome(lambda: t.getTextualNode(CtsReference(extra), simple=True)) == ("raise", "InvalidURN"))
    g.ensures("whole text", t.getTextualNode().resource is t.resource)
    first = t.getTextualNode(ref(doc.refs(1)[0]))
    g.ensures("no URN without that of the text", t.urn is None and first.urn is None and str(first.reference) == ref(doc.refs(1)[0]))


def gen_element(rng):
    kids = "".join(rng.choice(["<b>x</b>", "<c n='1'/>", "t", "<d>u<e/>v</d>w"]) for _ in range(rng.randint(0, 4)))
    return "<a xmlns='http://www.tei-c.org/ns/1.0' n='%s' type='t'>%s%s</a>" % (rng.choice("12"), rng.choice(["", "text "]), kids)


@M.goal(of=(copyNode,), xml=Custom(None, gen_element), tail=Choice("", " tail "), children=Bool(), bounded=True, samples=200)
def copies(g, xml, tail, children):
    from lxml import objectify
    root = objectify.fromstring("<r xmlns='http://www.tei-c.org/ns/1.0'>%s%s<z/></r>" % (xml, tail))
    node = root.getchildren()[0]
    parent = copyNode(root)
    before = etree.tostring(root)
    c = copyNode(node, children=children, parent=parent)
    g.ensures("put in the parent", c.getparent() is parent and len(parent) == 1)
    g.ensures("tag and attributes", c.tag == node.tag and dict(c.attrib) == dict(node.attrib))
    g.ensures("original unchanged", etree.tostring(root) == before)
    inner = [etree.tostring(x, method="c14n", exclusive=True) for x in node.iterchildren()] if children else []
    g.ensures("content", [etree.tostring(x, method="c14n", exclusive=True) for x in c.iterchildren()] == inner)
    g.ensures("text", (c.text or "") == ((node.text or "") if children else ""))
