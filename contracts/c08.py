"""C08: previous and next passages are the neighbours in document order; navigation follows the references."""
from lxml import etree
from pyvc.goals import *
from contracts.domains import *
from MyCapytain.common.reference import CtsReference, CtsReferenceSet, Citation, URN
from MyCapytain.resources.texts.local.capitains.cts import CapitainsCtsPassage, CapitainsCtsText, _SimplePassage
from contracts.documents import Doc, ref
from MyCapytain.resources.prototypes.text import InteractiveTextualNode

M = Module("C08")
M.assumptions.append("siblings: the document's getReffs gives its references in document order, and getReffs(level=0) of a "
                     "range gives the references from its start to its end (contract; the implementation is C09)")


RESOURCE = etree.fromstring("<x/>")


class AnyText(object):
    """A text that has these references at the level of the passage."""
    def __init__(self, refs):
        self.refs = CtsReferenceSet(refs)

    def getReffs(self, level=1, subreference=None):
        return self.refs


class Node(InteractiveTextualNode):
    """A node of a text that has these references below it."""
    refs = ()

    def getReffs(self, level=1, subreference=None):
        return self.refs

    ids = (None, None, None)

    prevId = property(lambda self: self.ids[0])
    nextId = property(lambda self: self.ids[1])
    parentId = property(lambda self: self.ids[2])

    def getTextualNode(self, subreference):
        return ("node", subreference)


class Passage(CapitainsCtsPassage):
    inside = None

    def getReffs(self, level=1, subreference=None):
        assert level == 0
        return self.inside


def passage(reference, refs, inside=None):
    p = Passage(reference=reference, citation=Citation(name="x"), resource=RESOURCE, text=AnyText(refs))
    p.inside = inside
    return p


DOC = Custom(sym_references(ranges=False), gen_references(ranges=False))


def first_positions(refs, *texts):
    """Positions of these references."""
    s = CtsReferenceSet(refs)
    return [s.index(t) for t in texts]


@M.goal(of=(CapitainsCtsPassage.siblingsId, CapitainsCtsPassage.prevId, CapitainsCtsPassage.nextId), refs=DOC, text=PASSAGE_TEXT)
def single(g, refs, text):
    s = CtsReferenceSet(refs)
    g.requires(text in s)
    i = s.index(text)
    p = passage(CtsReference(text), refs)
    prev, next_ = p.siblingsId
    if i == 0:
        g.ensures("nothing before the first", prev is None)
    else:
        g.ensures("previous", prev == refs[i - 1])
    if i == len(refs) - 1:
        g.ensures("nothing after the last", next_ is None)
    else:
        g.ensures("next", next_ == refs[i + 1])
    g.ensures("same separately", p.prevId == prev and p.nextId == next_)


@M.goal(of=(CapitainsCtsPassage.siblingsId,), refs=DOC, a=PASSAGE_TEXT, b=PASSAGE_TEXT)
def range_(g, refs, a, b):
    g.requires(a.count(".") == b.count("."))
    s = CtsReferenceSet(refs)
    g.requires(a in s and b in s)
    i, j = s.index(a), s.index(b)
    g.requires(i <= j)
    n = j - i + 1
    p = passage(CtsReference(a + "-" + b), refs, refs[i:j + 1])
    prev, next_ = p.siblingsId
    if i == 0:
        g.ensures("nothing before the first", prev is None)
    elif i == j:
        g.ensures("previous of one passage", prev == refs[i - 1])
    else:
        first = refs[i - n] if i >= n else refs[0]
        g.ensures("previous range of the same number of passages", prev == CtsReference(str(first) + "-" + str(refs[i - 1])))
    if j == len(refs) - 1:
        g.ensures("nothing after the last", next_ is None)
    elif i == j:
        g.ensures("next of one passage", next_ == refs[j + 1])
    else:
        last = refs[j + n] if j + n < len(refs) else refs[len(refs) - 1]
        g.ensures("next range of the same number of passages", next_ == CtsReference(str(refs[j + 1]) + "-" + str(last)))


PARTS = ListOf(Str(lacks="-@.", nonempty=True), minlen=1, maxgen=3)


@M.goal(of=(CapitainsCtsPassage._raise_depth,), refs=DOC, a=PARTS, b=PARTS)
def mixed_depth(g, refs, a, b):
    g.requires(len(a) != len(b))
    p = passage(CtsReference(".".join(a) + "-" + ".".join(b)), refs)
    bad = ("raise", "InvalidSiblingRequest")
    g.ensures("no siblings", g.outcome(lambda: p.siblingsId) == bad)
    g.ensures("no previous", g.outcome(lambda: p.prevId) == bad)
    g.ensures("no next", g.outcome(lambda: p.nextId) == bad)
    g.ensures("no children", g.outcome(lambda: p.childIds) == bad)


@M.goal(of=(_SimplePassage.siblingsId, _SimplePassage.prevId, _SimplePassage.nextId), refs=DOC, text=PASSAGE_TEXT)
def simple(g, refs, text):
    s = CtsReferenceSet(refs)
    g.requires(text in s)
    i = s.index(text)
    p = _SimplePassage(RESOURCE, CtsReference(text), Citation(name="x"), AnyText(refs))
    prev, next_ = p.siblingsId
    if i == 0:
        g.ensures("nothing before the first", prev is None)
    else:
        g.ensures("previous", prev == refs[i - 1])
    if i == len(refs) - 1:
        g.ensures("nothing after the last", next_ is None)
    else:
        g.ensures("next", next_ == refs[i + 1])
    g.ensures("same separately", p.prevId == prev and p.nextId == next_)


@M.goal(of=(InteractiveTextualNode.firstId, InteractiveTextualNode.lastId), refs=DOC)
def first_and_last(g, refs):
    t = Node(identifier="x")
    t.refs = CtsReferenceSet(refs)
    if len(refs) == 0:
        g.ensures("no first", t.firstId is None and t.first is None)
        g.ensures("no last", t.lastId is None and t.last is None)
    else:
        g.ensures("first", t.firstId == refs[0] and t.first == ("node", refs[0]))
        g.ensures("last", t.lastId == refs[len(refs) - 1] and t.last == ("node", refs[len(refs) - 1]))
    g.ensures("children", list(t.children) == [("node", r) for r in refs])
    g.ensures("children ids", list(t.childIds) == refs)


@M.goal(of=(InteractiveTextualNode.prev, InteractiveTextualNode.next), prev=Opt(PASSAGE_TEXT), next_=Opt(PASSAGE_TEXT), parent=PASSAGE_TEXT)
def neighbours(g, prev, next_, parent):
    t = Node(identifier="x")
    t.ids = (prev, next_, parent)
    g.ensures("previous", t.prev == (None if prev is None else ("node", prev)))
    g.ensures("next", t.next == (None if next_ is None else ("node", next_)))
    g.ensures("parent", t.parent == ("node", parent))


# ---------------------------------------------------------------- bounded: whole documents
BOUND = dict(bounded=True, samples=60)


@M.goal(of=(CapitainsCtsPassage.siblingsId, CapitainsCtsPassage.next, CapitainsCtsPassage.prev), doc=Custom(None, Doc), **BOUND)
def reading_through(g, doc):
    t = doc.text(urn=doc.urn)
    for level in range(1, doc.depth + 1):
        refs = [ref(r) for r in doc.refs(level)]
        for simple in (False, True):
            p = t.getTextualNode(CtsReference(refs[0]), simple=simple)
            seen = []
            while p is not None and len(seen) <= len(refs):
                seen.append(str(p.reference))
                g.ensures("its own URN", str(p.urn) == doc.urn + ":" + seen[-1])
                q = p.next
                if q is not None:
                    g.ensures("previous of next", str(q.prevId) == seen[-1] and str(q.prev.reference) == seen[-1])
                    g.ensures("next id", str(p.nextId) == str(q.reference))
                    g.ensures("text", q.export("text/plain") == t.getTextualNode(CtsReference(str(q.reference))).export("text/plain"))
                p = q
            g.ensures("every passage once, in order", seen == refs)


@M.goal(of=(CapitainsCtsPassage.siblingsId, CapitainsCtsPassage.childIds), doc=Custom(None, Doc),
        cut=Custom(None, lambda rng: (rng.randint(1, 3), rng.random(), rng.random())), bounded=True, samples=400)
def ranges(g, doc, cut):
    level = min(cut[0], doc.depth)
    refs = [ref(r) for r in doc.refs(level)]
    i, j = sorted(int(x * len(refs)) for x in cut[1:])
    g.requires(i < j)
    n = j - i + 1
    p = doc.text().getTextualNode(CtsReference(refs[i] + "-" + refs[j]))
    prev, next_ = p.siblingsId
    before, after = refs[max(0, i - n):i], refs[j + 1:j + 1 + n]
    g.ensures("previous range", prev == (CtsReference(before[0] + "-" + before[-1]) if before else None))
    g.ensures("next range", next_ == (CtsReference(after[0] + "-" + after[-1]) if after else None))
    if len(before) > 1:
        g.ensures("previous passage", p.prev.reference == prev and p.prev.nextId is not None)
    if len(after) > 1:
        g.ensures("next passage", p.next.reference == next_ and p.next.prevId is not None)
        if len(after) == n:
            g.ensures("previous of next", p.next.prevId == p.reference)


@M.goal(of=(CapitainsCtsPassage.childIds,), doc=Custom(None, Doc), **BOUND)
def children(g, doc):
    t = doc.text()
    g.ensures("children of the text", [str(r) for r in t.childIds] == [ref(r) for r in doc.refs(1)])
    for level in range(1, doc.depth + 1):
        for r in doc.refs(level):
            for simple in (False, True):
                p = t.getTextualNode(CtsReference(ref(r)), simple=simple)
                kids = [ref(r + (n,)) for n, _ in doc.node(r)] if level < doc.depth else []
                g.ensures("children", [str(c) for c in p.childIds] == kids)
                g.ensures("first and last", (str(p.firstId), str(p.lastId)) == ((kids[0], kids[-1]) if kids else ("None", "None")))
                if kids:
                    g.ensures("first child", str(p.first.reference) == kids[0] and str(p.last.reference) == kids[-1])
                    g.ensures("children passages", [str(c.reference) for c in p.children] == kids)
