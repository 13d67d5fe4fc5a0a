"""C02: hierarchy of CTS passage references: parent, highest and depth."""
from pyvc.goals import *
from MyCapytain.common.reference import CtsReference
from MyCapytain.common.reference._capitains_cts import CtsSinglePassageId
from contracts.c01 import side, PARTS, SUB, W

M = Module("C02")


def suffix(sub):
    return "" if sub is None else "@" + sub


@M.goal(of=(CtsReference.parent, CtsReference.highest), parts=PARTS, sub=SUB)
def parent_of_single(g, parts, sub):
    s = side(parts, sub)
    g.requires(s != "")
    r = CtsReference(s)
    p = r.parent
    g.ensures("highest is itself", r.highest == s and str(r.highest) == s and r.highest.list == parts)
    if len(parts) == 1:
        g.ensures("no parent at the top", p is None)
    else:
        g.requires(".".join(parts[:-1]) + suffix(sub) != "")
        g.ensures("parent text", str(p) == ".".join(parts[:-1]) + suffix(sub))
        g.ensures("parent components", p.start.list == parts[:-1])
        g.ensures("parent depth", p.depth == len(parts) - 1)
        g.ensures("parent is single", p.end is None and isinstance(p, CtsReference))
        g.ensures("parent subreference kept", (p.subreference is None) == (sub is None))


@M.goal(of=(CtsReference.parent,), parts=PARTS, sub=SUB, parts2=PARTS, sub2=SUB)
def parent_of_range(g, parts, sub, parts2, sub2):
    a, b = side(parts, sub), side(parts2, sub2)
    g.requires(a != "" and b != "")
    r = CtsReference(a + "-" + b)
    p = r.parent
    if len(parts) == 1 or len(parts2) == 1:
        g.ensures("no parent at the top", p is None)
    else:
        up, up2 = parts[:-1], parts2[:-1]
        x, y = side(up, sub), side(up2, sub2)
        g.requires(x != "" and y != "")
        if up == up2 and sub is None and sub2 is None:
            g.ensures("common parent is single", str(p) == ".".join(up) and p.end is None and p.start.list == up)
        else:
            g.ensures("parents of both sides", str(p) == x + "-" + y)
            g.ensures("start parent", p.start == x and p.start.list == up)
            g.ensures("end parent", p.end == y and p.end.list == up2)


@M.goal(of=(CtsReference.highest, CtsReference.depth), parts=PARTS, sub=SUB, parts2=PARTS, sub2=SUB)
def highest_of_range(g, parts, sub, parts2, sub2):
    a, b = side(parts, sub), side(parts2, sub2)
    g.requires(a != "" and b != "")
    r = CtsReference(a + "-" + b)
    if len(parts2) < len(parts):
        g.ensures("end is highest", r.highest == b and r.highest.list == parts2)
        g.ensures("depth of the end", r.depth == len(parts2))
    else:
        g.ensures("start is highest", r.highest == a and r.highest.list == parts)
        g.ensures("depth of the start", r.depth == len(parts))
    g.ensures("highest is a side", isinstance(r.highest, CtsSinglePassageId))


@M.goal(of=(CtsReference.parent,), parts=ListOf(Str(lacks="-@.", nonempty=True), minlen=1, maxgen=4))
def parents_reach_the_top(g, parts):
    """One step of the chain: each parent is one level shallower, so the chain ends after depth steps."""
    r = CtsReference(".".join(parts))
    p = r.parent
    if p is None:
        g.ensures("only the top has no parent", r.depth == 1)
    else:
        g.ensures("one level up", p.depth == r.depth - 1)
        g.ensures("prefix", p.start.list == r.start.list[:-1])
