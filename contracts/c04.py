"""C04: partial URNs (upTo) are the documented prefixes, and missing members are an error."""
from pyvc.goals import *
from MyCapytain.common.reference import URN, CtsReference
from contracts.c03 import NS, ID, SIDE, LEVEL, REF, reference_text, text_of

M = Module("C04")
D = dict(uns=NS, ns=NS, level=LEVEL, tg=ID, wk=ID, vr=ID, kind=REF, start=SIDE, end=SIDE)


@M.goal(of=URN.upTo, **D)
def up_to(g, uns, ns, level, tg, wk, vr, kind, start, end):
    ref = reference_text(kind, start, end)
    g.requires(level >= 3 or ref is None)
    s = text_of(uns, ns, level, tg, wk, vr, ref)
    u = URN(s)
    head = "urn:" + uns + ":" + ns
    g.ensures("complete", u.upTo(URN.COMPLETE) == s)
    g.ensures("namespace", u.upTo(URN.NAMESPACE) == head)
    if level >= 2:
        g.ensures("textgroup", u.upTo(URN.TEXTGROUP) == head + ":" + tg)
    if level >= 3:
        g.ensures("work", u.upTo(URN.WORK) == head + ":" + tg + "." + wk)
        g.ensures("without passage", u.upTo(URN.NO_PASSAGE) == text_of(uns, ns, level, tg, wk, vr, None))
    if level >= 4:
        g.ensures("version", u.upTo(URN.VERSION) == head + ":" + tg + "." + wk + "." + vr)
    if ref is not None:
        base = text_of(uns, ns, level, tg, wk, vr, None)
        g.ensures("passage", u.upTo(URN.PASSAGE) == base + ":" + ref)
        g.ensures("passage start", u.upTo(URN.PASSAGE_START) == base + ":" + start)
        if kind == 2:
            g.ensures("passage end", u.upTo(URN.PASSAGE_END) == base + ":" + end)


def missing(g, u, key):
    return g.outcome(lambda: u.upTo(key)) == ("raise", "KeyError")


@M.goal(of=URN.upTo, key=Int(), **D)
def missing_member(g, uns, ns, level, tg, wk, vr, kind, start, end, key):
    ref = reference_text(kind, start, end)
    g.requires(level >= 3 or ref is None)
    u = URN(text_of(uns, ns, level, tg, wk, vr, ref))
    if level < 2:
        g.ensures("no textgroup", missing(g, u, URN.TEXTGROUP))
    if level < 3:
        g.ensures("no work", missing(g, u, URN.WORK) and missing(g, u, URN.NO_PASSAGE))
    if level < 4:
        g.ensures("no version", missing(g, u, URN.VERSION))
    if kind == 0:
        g.ensures("no passage", missing(g, u, URN.PASSAGE) and missing(g, u, URN.PASSAGE_START))
    if kind < 2:
        g.ensures("no passage end", missing(g, u, URN.PASSAGE_END))
    g.requires(key not in [0, 1, 2, 3, 4, 5, 6, 10, 100])
    g.ensures("unknown key", missing(g, u, key))


@M.goal(of=URN.upTo, **D)
def partial_urns_parse_back(g, uns, ns, level, tg, wk, vr, kind, start, end):
    ref = reference_text(kind, start, end)
    g.requires(level >= 3 or ref is None)
    u = URN(text_of(uns, ns, level, tg, wk, vr, ref))
    s = str(u)
    if level >= 3:
        w = URN(u.upTo(URN.WORK))
        g.ensures("work members", w.textgroup == u.textgroup and w.work == u.work and w.version is None and w.reference is None)
        n = URN(u.upTo(URN.NO_PASSAGE))
        g.ensures("same without passage", n.version == u.version and n.reference is None and len(n) == len(u))
    g.ensures("asking changes nothing", str(u) == s)
