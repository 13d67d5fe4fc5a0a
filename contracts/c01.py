"""C01: CTS passage references parse, print and expose their components faithfully."""
from pyvc.goals import *
from MyCapytain.common.reference import CtsReference
from MyCapytain.common.reference._capitains_cts import CtsSinglePassageId, CtsWordReference

M = Module("C01")
W = Str(lacks="-@.")
PARTS = ListOf(W, minlen=1, maxgen=4)
SUB = Opt(Str(lacks="-@", also=".[]"))


def side(parts, sub):
    s = ".".join(parts)
    if sub is not None:
        s = s + "@" + sub
    return s


@M.goal(of=(CtsReference.__new__, CtsSinglePassageId.__new__, CtsReference.__str__, CtsReference.depth,
            CtsSinglePassageId.__len__, CtsSinglePassageId.depth, CtsSinglePassageId.list), parts=PARTS, sub=SUB)
def single_reference(g, parts, sub):
    s = side(parts, sub)
    g.requires(s != "")
    r = CtsReference(s)
    g.ensures("prints as parsed", str(r) == s)
    g.ensures("start prints as parsed", str(r.start) == s)
    g.ensures("start equals text", r.start == s)
    g.ensures("no end", r.end is None)
    g.ensures("is no range", not r.is_range())
    g.ensures("components", r.start.list == parts)
    g.ensures("components by iteration", list(r.start) == parts)
    g.ensures("length", len(r.start) == len(parts))
    g.ensures("side depth", r.start.depth == len(parts))
    g.ensures("depth", r.depth == len(parts))
    if sub is None:
        g.ensures("no subreference", r.subreference is None and r.start.subreference is None)
    else:
        g.ensures("subreference text", str(r.subreference) == "@" + sub and str(r.start.subreference) == "@" + sub)


@M.goal(of=(CtsReference.__new__, CtsReference.__str__, CtsReference.depth, CtsReference.highest,
            CtsReference.subreference, CtsSinglePassageId.subreference),
        parts=PARTS, sub=SUB, parts2=PARTS, sub2=SUB)
def range_reference(g, parts, sub, parts2, sub2):
    a, b = side(parts, sub), side(parts2, sub2)
    g.requires(a != "" and b != "")
    r = CtsReference(a + "-" + b)
    g.ensures("prints as parsed", str(r) == a + "-" + b)
    g.ensures("start prints", str(r.start) == a)
    g.ensures("end prints", str(r.end) == b)
    g.ensures("is range", r.is_range())
    g.ensures("start components", r.start.list == parts)
    g.ensures("end components", r.end.list == parts2)
    g.ensures("start length", len(r.start) == len(parts) and r.start.depth == len(parts))
    g.ensures("end length", len(r.end) == len(parts2) and r.end.depth == len(parts2))
    g.ensures("depth", r.depth == (len(parts) if len(parts) <= len(parts2) else len(parts2)))
    g.ensures("no subreference of its own", r.subreference is None)
    if sub is None:
        g.ensures("start without subreference", r.start.subreference is None)
    else:
        g.ensures("start subreference", str(r.start.subreference) == "@" + sub)
    if sub2 is None:
        g.ensures("end without subreference", r.end.subreference is None)
    else:
        g.ensures("end subreference", str(r.end.subreference) == "@" + sub2)


@M.goal(of=(CtsReference.__new__,), parts=PARTS, sub=SUB, parts2=PARTS, sub2=SUB)
def pair_construction(g, parts, sub, parts2, sub2):
    a, b = side(parts, sub), side(parts2, sub2)
    g.requires(a != "" and b != "")
    whole = CtsReference(a + "-" + b)
    for other in [CtsReference(a, b), CtsReference((a, b)), CtsReference((whole.start, whole.end))]:
        g.ensures("pair equals text", other == whole and str(other) == a + "-" + b)
        g.ensures("pair sides", other.start == a and other.end == b and other.is_range())
        g.ensures("pair components", other.start.list == parts and other.end.list == parts2)
    one = CtsReference((a, None))
    g.ensures("one sided pair", one == CtsReference(a) and str(one) == a and one.end is None)
    g.ensures("nothing", CtsReference("") is None and CtsReference(None) is None)


ANY = Str(lacks="-", nonempty=True, alphabet="ab1", also=".@", maxlen=2)
PLAIN = Str(lacks="-@", nonempty=True, alphabet="ab1", also=".", maxlen=2)


@M.goal(of=(CtsReference.__new__,), a=ANY, c=ANY)
def equality_is_text_equality(g, a, c):
    g.ensures("single", (CtsReference(a) == CtsReference(c)) == (a == c))
    g.ensures("inequality", (CtsReference(a) != CtsReference(c)) == (a != c))


@M.goal(of=(CtsReference.__new__,), a=PLAIN, b=PLAIN, c=PLAIN, d=PLAIN)
def range_equality_is_text_equality(g, a, b, c, d):
    g.ensures("range", (CtsReference(a + "-" + b) == CtsReference(c + "-" + d)) == (a == c and b == d))
    g.ensures("range inequality", (CtsReference(a + "-" + b) != CtsReference(c + "-" + d)) == (a != c or b != d))
    g.ensures("single differs from range", not (CtsReference(a) == CtsReference(c + "-" + d)))


@M.goal(of=(CtsWordReference.__new__, CtsWordReference.tuple, CtsWordReference.__iter__),
        word=Str(alphabet="abéΣ", nonempty=True), n=Opt(Int(0, None, glo=0, ghi=30)), bounded=True)
def word_and_counter(g, word, n):
    text = word if n is None else word + "[" + str(n) + "]"
    w = CtsWordReference(text)
    g.ensures("text", str(w) == "@" + text)
    g.ensures("word", w.word == word)
    g.ensures("counter", w.counter == (0 if n is None else n))
    g.ensures("tuple", w.tuple() == (word, 0 if n is None else n) and list(w) == [word, 0 if n is None else n])


@M.goal(of=(CtsWordReference.__new__, CtsWordReference.tuple, CtsWordReference.__iter__), text=Str(lacks="-@", also="[]"))
def word_reference_views(g, text):
    w = CtsWordReference(text)
    g.ensures("prints", str(w) == "@" + text)
    g.ensures("views agree", w.tuple() == (w.word, w.counter) and list(w) == [w.word, w.counter])
    r = CtsReference("1@" + text).start.subreference
    g.ensures("same through a reference", r.tuple() == w.tuple())
