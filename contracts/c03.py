"""C03: CTS URNs parse into their members, print back, follow component updates, compare and count."""
from pyvc.goals import *
from MyCapytain.common.reference import URN, CtsReference

M = Module("C03")
NS = Str(lacks=":#", nonempty=True, alphabet="ab1", also=".-")
ID = Str(lacks=":#.", nonempty=True, alphabet="ab1", also="-")
PART = Str(lacks=":#-@", nonempty=True, alphabet="ab1", also=".")


def sym_with_subreference(it, name):
    return SStr(PART.sym(it, name).pieces + ("@",) + PART.sym(it, name + "_sub").pieces)


# one side of a passage: its components, and possibly an @subreference
SIDE = OneOf(PART, Custom(sym_with_subreference, lambda rng: PART.gen(rng) + "@" + PART.gen(rng)))
LEVEL = Choice(1, 2, 3, 4)      # namespace, textgroup, work, version
REF = Choice(0, 1, 2)           # none, single, range


def reference_text(kind, start, end):
    if kind == 0:
        return None
    if kind == 1:
        return start
    return start + "-" + end


def text_of(uns, ns, level, tg, wk, vr, ref):
    s = "urn:" + uns + ":" + ns
    if level >= 2:
        s = s + ":" + tg
    if level >= 3:
        s = s + "." + wk
    if level >= 4:
        s = s + "." + vr
    if ref is not None:
        s = s + ":" + ref
    return s


@M.goal(of=(URN.__init__, URN.__parse__, URN.__str__, URN.__len__), uns=NS, ns=NS, level=LEVEL, tg=ID, wk=ID, vr=ID, kind=REF, start=SIDE, end=SIDE)
def parse_and_print(g, uns, ns, level, tg, wk, vr, kind, start, end):
    ref = reference_text(kind, start, end)
    g.requires(level >= 3 or ref is None)
    s = text_of(uns, ns, level, tg, wk, vr, ref)
    u = URN(s)
    g.ensures("prints as parsed", str(u) == s)
    g.ensures("namespaces", u.urn_namespace == uns and u.namespace == ns)
    g.ensures("textgroup", u.textgroup == (tg if level >= 2 else None))
    g.ensures("work", u.work == (wk if level >= 3 else None))
    g.ensures("version", u.version == (vr if level >= 4 else None))
    if ref is None:
        g.ensures("no reference", u.reference is None)
    else:
        g.ensures("reference", isinstance(u.reference, CtsReference) and str(u.reference) == ref)
        g.ensures("reference is the parsed passage", u.reference == CtsReference(ref))
    g.ensures("length counts members without the passage", len(u) == level + 1)


@M.goal(of=(URN.__parse__,), uns=NS, ns=NS, level=LEVEL, tg=ID, wk=ID, vr=ID, kind=REF, start=SIDE, end=SIDE, frag=Str(lacks=""))
def fragment_is_ignored(g, uns, ns, level, tg, wk, vr, kind, start, end, frag):
    ref = reference_text(kind, start, end)
    g.requires(level >= 3 or ref is None)
    s = text_of(uns, ns, level, tg, wk, vr, ref)
    u = URN(s + "#" + frag)
    g.ensures("text before the fragment", str(u) == s)
    g.ensures("equal to the URN without fragment", u == URN(s))


@M.goal(of=(URN.__parse__,), s=Str(lacks=":", also="#."), t=Str(lacks=":", also="#."))
def too_short(g, s, t):
    g.ensures("one member", g.outcome(lambda: URN(s)) == ("raise", "ValueError"))
    g.ensures("two members", g.outcome(lambda: URN(s + ":" + t)) == ("raise", "ValueError"))


@M.goal(of=(URN.__eq__, URN.__ne__), a=Str(lacks="#:", also="."), b=Str(lacks="#:", also="."), c=Str(lacks="#:", also="."),
        d=Str(lacks="#:", also="."))
def equality_is_text_equality(g, a, b, c, d):
    s, t = "urn:cts:" + a + ":" + b, "urn:cts:" + c + ":" + d
    g.ensures("equal texts", (URN(s) == URN(t)) == (s == t))
    g.ensures("unequal texts", (URN(s) != URN(t)) == (s != t))
    g.ensures("not a string", not (URN(s) == s) and URN(s) != s)


@M.goal(of=(URN.__gt__, URN.__lt__, URN.__len__), uns=NS, ns=NS, tg=ID, wk=ID, vr=ID, l1=LEVEL, l2=LEVEL)
def order_by_length(g, uns, ns, tg, wk, vr, l1, l2):
    u, v = URN(text_of(uns, ns, l1, tg, wk, vr, None)), URN(text_of(uns, ns, l2, wk, tg, vr, None))
    g.ensures("greater", (u > v) == (l1 > l2))
    g.ensures("lower", (u < v) == (l1 < l2))


def parts(u):
    return [u.urn_namespace, u.namespace, u.textgroup, u.work, u.version, None if u.reference is None else str(u.reference)]


@M.goal(of=(URN.namespace.fset, URN.urn_namespace.fset, URN.textgroup.fset, URN.work.fset, URN.version.fset, URN.reference.fset),
        uns=NS, ns=NS, level=LEVEL, tg=ID, wk=ID, vr=ID, kind=REF, start=SIDE, end=PART, which=Choice(0, 1, 2, 3, 4, 5), new=Opt(ID),
        printed=Choice(True, False))
def update_one_member(g, uns, ns, level, tg, wk, vr, kind, start, end, which, new, printed):
    ref = reference_text(kind, start, end)
    g.requires(level >= 3 or ref is None)
    g.requires(new is not None if which < 2 else new is None or "-" not in new)
    u = URN(text_of(uns, ns, level, tg, wk, vr, ref))
    if printed:
        str(u)
    want = parts(u)
    want[which] = new
    if which == 0:
        u.urn_namespace = new
    elif which == 1:
        u.namespace = new
    elif which == 2:
        u.textgroup = new
    elif which == 3:
        u.work = new
    elif which == 4:
        u.version = new
    else:
        u.reference = new
    g.ensures("only that member changes", parts(u) == want)
    # the text is canonical as long as the members are filled from the left
    rest = want[4] is None and want[5] is None
    if (want[2] is not None or want[3] is None and rest) and (want[3] is not None or rest):
        text = "urn:" + want[0] + ":" + want[1]
        if want[2] is not None:
            text = text + ":" + want[2]
        if want[3] is not None:
            text = text + "." + want[3]
        if want[4] is not None:
            text = text + "." + want[4]
        if want[5] is not None:
            text = text + ":" + want[5]
        g.ensures("the text follows", str(u) == text)
        g.ensures("equality follows", u == URN(text))
        g.ensures("length follows", len(u) == len(URN(text)))


@M.goal(of=(URN.reference.fset,), uns=NS, ns=NS, tg=ID, wk=ID, start=SIDE, end=SIDE)
def update_reference(g, uns, ns, tg, wk, start, end):
    base = text_of(uns, ns, 3, tg, wk, "", None)
    u = URN(base + ":" + start)
    u.reference = start + "-" + end
    g.ensures("range from text", str(u) == base + ":" + start + "-" + end and u.reference.end == end)
    u.reference = CtsReference(end)
    g.ensures("reference object", str(u) == base + ":" + end and u.reference == CtsReference(end))
    u.reference = None
    g.ensures("no reference", str(u) == base and u.reference is None)
