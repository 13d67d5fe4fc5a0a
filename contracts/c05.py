"""C05: sets of references keep their members, order, level and citation; membership and equality are coherent."""
from pyvc.goals import *
from contracts.domains import *
from MyCapytain.common.reference import CtsReference, CtsReferenceSet, DtsReference, DtsReferenceSet
from MyCapytain.common.metadata import Metadata
from MyCapytain.common.reference._base import BaseReference, BaseReferenceSet

M = Module("C05")


@M.goal(of=BaseReferenceSet.__new__, refs=SUBREFS, level=Int(1, 9), cite=TXT)
def keeps_members(g, refs, level, cite):
    s = CtsReferenceSet(refs, citation=cite, level=level)
    g.ensures("members in order", list(s) == refs)
    g.ensures("length", len(s) == len(refs))
    g.ensures("level", s.level == level)
    g.ensures("citation", s.citation == cite)
    d = CtsReferenceSet(refs)
    g.ensures("defaults", d.level == 1 and d.citation is None)


@M.goal(of=BaseReferenceSet.__new__, a=PASSAGE_TEXT, b=PASSAGE_TEXT, n=Choice(1, 2))
def from_arguments(g, a, b, n):
    refs = [CtsReference(a), CtsReference(b)][:n]
    s = CtsReferenceSet(*refs, level=2)
    g.ensures("cts members", list(s) == refs and s.level == 2 and s.citation is None)
    drefs = [DtsReference(a), DtsReference(b)][:n]
    d = DtsReferenceSet(*drefs, level=2)
    g.ensures("dts members", list(d) == drefs and d.level == 2 and d.citation is None)


def occurs(refs, text):
    return any(str(r) == text for r in refs)


SUB = Opt(Str(lacks="-@", nonempty=True, gen=lambda rng: rng.choice(["a", "b.c", "b[2]"])))


def check_membership(g, refs, text):
    s = CtsReferenceSet(refs)
    g.ensures("by text", (text in s) == occurs(refs, text))
    g.ensures("by reference", (CtsReference(text) in s) == occurs(refs, text))


@M.goal(of=(CtsReferenceSet.__contains__,), refs=REFS, text=PASSAGE_TEXT, end=PASSAGE_TEXT, is_range=Bool())
def membership(g, refs, text, end, is_range):
    check_membership(g, refs, text + "-" + end if is_range else text)


@M.goal(of=(CtsReferenceSet.__contains__,), refs=SUBREFS, text=PASSAGE_TEXT, sub=SUB)
def membership_of_subreferences(g, refs, text, sub):
    check_membership(g, refs, text if sub is None else text + "@" + sub)


def check_index(g, refs, text, k):
    s = CtsReferenceSet(refs)
    found = g.outcome(lambda: s.index(text))
    if found[0] == "ok":
        i = found[1]
        g.ensures("is there", 0 <= i and i < len(refs) and str(refs[i]) == text)
        if k < i:
            g.witness(k)
            g.ensures("first", str(refs[k]) != text)
    else:
        g.ensures("absent", found == ("raise", "ValueError") and not occurs(refs, text))


@M.goal(of=(CtsReferenceSet.index,), refs=REFS, text=PASSAGE_TEXT, k=Int(0, glo=0, ghi=5))
def index(g, refs, text, k):
    check_index(g, refs, text, k)


@M.goal(of=(CtsReferenceSet.index,), refs=SUBREFS, text=PASSAGE_TEXT, sub=SUB, k=Int(0, glo=0, ghi=5))
def index_of_subreferences(g, refs, text, sub, k):
    check_index(g, refs, text if sub is None else text + "@" + sub, k)


@M.goal(of=(CtsReferenceSet.index,), refs=SUBREFS, text=PASSAGE_TEXT, sub=SUB)
def index_by_reference(g, refs, text, sub):
    if sub is not None:
        text = text + "@" + sub
    s = CtsReferenceSet(refs)
    g.ensures("same as by text", g.outcome(lambda: s.index(CtsReference(text))) == g.outcome(lambda: s.index(text)))


TYPE = Opt(TXT)
END = Opt(PASSAGE_TEXT)


def dts(start, end, type_):
    return DtsReference(start, end, type_=type_) if end is not None else DtsReference(start, type_=type_)


def stored(type_):
    """An empty type is no type."""
    return type_ or None


@M.goal(of=(DtsReference.__new__, DtsReference.__eq__), a=PASSAGE_TEXT, e=END, t=TYPE, a2=PASSAGE_TEXT, e2=END, t2=TYPE)
def dts_equality(g, a, e, t, a2, e2, t2):
    r, r2 = dts(a, e, t), dts(a2, e2, t2)
    same = a == a2 and e == e2 and stored(t) == stored(t2)
    g.ensures("equal exactly when parts and type are", (r == r2) == same)
    g.ensures("different exactly when not equal", (r != r2) == (not same))
    g.ensures("parts", r.start == a and r.end == e)
    g.ensures("range", r.is_range() == (e is not None))
    if t:
        g.ensures("type", str(r.type) == t)
    else:
        g.ensures("no type", r.type is None)


@M.goal(of=(DtsReferenceSet.__contains__,), a=PASSAGE_TEXT, t=TYPE, b=PASSAGE_TEXT, t2=TYPE, c=PASSAGE_TEXT, t3=TYPE)
def dts_membership(g, a, t, b, t2, c, t3):
    s = DtsReferenceSet(DtsReference(a, type_=t), DtsReference(b, type_=t2))
    same = (a == c and stored(t) == stored(t3)) or (b == c and stored(t2) == stored(t3))
    g.ensures("contains exactly equal references", (DtsReference(c, type_=t3) in s) == same)
    if not t3:
        g.ensures("a text stands for the untyped reference", (c in s) == same)


@M.goal(of=(DtsReference.__new__,), graph=GRAPH, a=PASSAGE_TEXT, node=NODE, t=TYPE)
def dts_metadata(g, graph, a, node, t):
    m = Metadata(node=node)
    known = m.get_single("https://w3id.org/dts/api#citeType")
    r = DtsReference(a, metadata=m, type_=t)
    g.ensures("keeps the metadata it is given", r.metadata.asNode() == node)
    if t:
        g.ensures("the type given", str(r.type) == t)
    else:
        g.ensures("the type already stored", r.type == known)


@M.goal(of=(DtsReferenceSet.__eq__,), a=PASSAGE_TEXT, t=TYPE, b=PASSAGE_TEXT, t2=TYPE, l1=Int(1, 3), l2=Int(1, 3),
        c1=Choice(None, "c", "d"), c2=Choice(None, "c", "d"))
def dts_set_equality(g, a, t, b, t2, l1, l2, c1, c2):
    s = DtsReferenceSet(DtsReference(a, type_=t), level=l1, citation=c1)
    s2 = DtsReferenceSet(DtsReference(b, type_=t2), level=l2, citation=c2)
    same = a == b and stored(t) == stored(t2) and l1 == l2 and c1 == c2
    g.ensures("equal exactly when members, level and citation are", (s == s2) == same)
    g.ensures("different exactly when not equal", (s != s2) == (not same))
    g.ensures("never equal to a plain tuple", not (s == (DtsReference(a, type_=t),)))
