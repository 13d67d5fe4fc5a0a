"""C11: the tree of collections: members, parents, descendants, lookup and removal."""
from pyvc.goals import *
from pyvc import interp as I
from contracts.domains import *
from MyCapytain.resources.prototypes.metadata import Collection
from MyCapytain.common.constants import RDF_NAMESPACES, get_graph
from MyCapytain.errors import UnknownCollection
from rdflib import URIRef

M = Module("C11")
M.assumptions.append("members used at a recursive call (descendants of a member) are arbitrary lists: induction on the tree")
ID = Str(nonempty=True, gen=lambda rng: rng.choice(["http://a/x", "http://b/x", "urn:c", "urn:d", "urn:e"]))
PROBE = dict(s=NODE, p=URI, o=ANYTERM)


# ---------------------------------------------------------------- attaching
@M.goal(of=(Collection.parent.fset, Collection._add_member, Collection.parent.fget), graph=TRIPLES, a=ID, b=ID, hollow=Bool(), **PROBE)
def attach(g, graph, a, b, hollow, s, p, o):
    top, x = Hollow(a) if hollow else Collection(a), Collection(b)
    before = (s, p, o) in graph
    x.parent = top
    g.ensures("parent and member", x.parent is top and len(top.members) == 1 and top.members[0] is x and x.members == [])
    g.ensures("one statement", ((s, p, o) in graph) == (before or (s == x.asNode() and p == RDF_NAMESPACES.CAPITAINS.parent and o == top.asNode())))


@M.goal(of=(Collection.parent.fset, Collection._add_member, Collection.members.fget, Collection.size.fget, Collection.parent.fget),
        b=ID, c=ID, hollow=Bool())
def attach_two(g, b, c, hollow):
    kind = Hollow if hollow else Collection
    top, x, y = kind("urn:top"), kind(b), kind(c)
    g.ensures("nothing at first", top.members == [] and top.size == 0 and top.parent is None and x.parent is None)
    x.parent = top
    y.parent = top
    g.ensures("parents", y.parent is top and x.parent is top)
    if b == c:
        g.ensures("known identifiers keep their member", top.size == 1 and top.members[0] is x)
    else:
        g.ensures("in the order they are attached", top.size == 2 and top.members[0] is x and top.members[1] is y)
        g.ensures("by identifier", top.children[b] is x and top.children[c] is y)


class Mapping(object):
    """Any dictionary: `known` says which keys it has before, written what is put in it."""
    def __init__(self, known):
        self.known, self.written = known, []

    def __contains__(self, key):
        return self.known(key) or any(k == key for k, v in self.written)

    def __setitem__(self, key, value):
        self.written.append((key, value))

    def setdefault(self, key, value):
        if key not in self:
            self[key] = value

    def get(self, key, default=None):
        return "known" if key in self else default


class Holder(Collection):
    held = None
    children = property(lambda self: self.held)


def sym_known(it, name):
    f = it.e.uf(name, z3.StringSort(), z3.BoolSort())
    return I.Native(lambda it_, a, k: SBool(f(sterm(a[0]))))


KNOWN = Custom(sym_known, lambda rng: (lambda ks: lambda k: k in ks)(rng.sample(["urn:a", "urn:b", "urn:c"], rng.randint(0, 2))))


@M.goal(of=(Collection.parent.fset, Collection._add_member), a=ID, b=ID, known=KNOWN)
def attach_to_any(g, a, b, known):
    top, x = Holder(a), Collection(b)
    top.held = Mapping(known)
    x.parent = top
    if known(b):
        g.ensures("a known identifier keeps what it stands for", top.held.written == [])
    else:
        g.ensures("added under its identifier, and nothing else", len(top.held.written) == 1 and top.held.written[0][0] == b and
                  top.held.written[0][1] is x)
    g.ensures("parent", x.parent is top)


def named(ids, full):
    """Collections of these identifiers, without statements."""
    return [Bare(i, full) for i in ids]


class Bare(Collection):
    def __init__(self, identifier, full=True):
        self.full = full
        self._node, self._parent, self._children, self._graph = URIRef(identifier), None, {}, NOTHING


    def __bool__(self):
        return self.full


class Hollow(Collection):
    """Counts as false, as collections of CTS without texts do."""
    def __len__(self):
        return 0


class Nothing(object):
    def add(self, triple):
        pass


NOTHING = Nothing()


@M.goal(of=(Collection.parents.fget,), depth=Choice(0, 1, 2, 3, 4, 5, 6), ids=ListOf(ID, minlen=7, maxgen=7), full=Bool())
def parents(g, depth, ids, full):
    """Bounded in the depth (0 to 6)."""
    chain = named([ids[i] for i in range(depth + 1)], full)
    for i in range(depth):
        chain[i].parent = chain[i + 1]
    found = chain[0].parents
    g.ensures("from the closest to the furthest", len(found) == depth and all(found[i] is chain[i + 1] for i in range(depth)))


# ---------------------------------------------------------------- lookup over any members
class Member(object):
    def __init__(self, id, readable, descendants, full=True):
        self.id, self.readable, self.descendants, self.full = id, readable, descendants, full

    def __bool__(self):
        return self.full

    def describe(self):
        return "%s(%s)" % (self.id, ", ".join(d.describe() for d in self.descendants))


def sym_descendants(it, r):
    f = it.e.uf("descendant", MEMBER.sort, z3.IntSort(), MEMBER.sort)
    n = it.e.uf("descendants", MEMBER.sort, z3.IntSort())
    it.e.fact(n(r.t) >= 0)
    return PList([("b", Base(n(r.t), lambda j: Ref(MEMBER, f(r.t, j)), ident=("descendants", r.t)))])


MEMBER = I.Kind("Member", fields={
    "id": lambda it, r: SStr((it.e.uf("id_of", MEMBER.sort, z3.StringSort())(r.t),)),
    "readable": lambda it, r: SBool(it.e.uf("readable", MEMBER.sort, z3.BoolSort())(r.t)),
    "descendants": sym_descendants},
    truth=lambda it, r: SBool(it.e.uf("full", MEMBER.sort, z3.BoolSort())(r.t)))


def sym_members(it, name):
    f = it.e.uf(name + ".at", z3.IntSort(), MEMBER.sort)
    return sym_list(it, name, lambda j: Ref(MEMBER, f(j)))


def gen_members(rng, depth=2):
    return [Member(rng.choice(["urn:a", "urn:b", "urn:c", "urn:d"]), rng.random() < .5, gen_members(rng, depth - 1) if depth else [], rng.random() < .7)
            for _ in range(rng.randint(0, 3))]


MEMBERS = Custom(sym_members, gen_members)


class Any(Collection):
    """A collection with these members."""
    held = ()
    members = property(lambda self: self.held)


class Anyway(Any):
    """A collection with these members and descendants."""
    below = ()
    descendants = property(lambda self: self.below)


@M.goal(of=(Collection.descendants.fget,), members=MEMBERS)
def descendants(g, members):
    c = Any("urn:top")
    c.held = members
    g.ensures("members first, then their descendants in order", c.descendants == members + [d for m in members for d in m.descendants])


@M.goal(of=(Collection.readableDescendants.fget,), below=MEMBERS)
def readable(g, below):
    c = Anyway("urn:top")
    c.below = below
    g.ensures("the readable ones, in order", c.readableDescendants == [d for d in below if d.readable])


@M.goal(of=(Collection.__getitem__, Collection.__contains__), members=MEMBERS, rest=MEMBERS, key=ID, me=ID, k=Int(0, glo=0, ghi=6))
def lookup(g, members, rest, key, me, k):
    c = Anyway(me)
    c.held = members
    c.below = members + rest
    found = g.outcome(lambda: c[key])
    g.ensures("contains exactly what can be found", (key in c) == (found[0] == "ok"))
    if found[0] == "ok":
        g.ensures("what is asked", found[1].id == key)
        if key == me:
            g.ensures("itself", found[1] is c)
        else:
            g.ensures("one of its descendants", any(found[1] is d for d in c.below))
    else:
        g.ensures("an error otherwise", found == ("raise", "UnknownCollection"))
        g.ensures("nothing has this identifier", key != me and not any(d.id == key for d in c.below))


# ---------------------------------------------------------------- removing
@M.goal(of=(Collection.__delitem__,), graph=TRIPLES, a=ID, b=ID, c=ID, d=ID, which=Choice(0, 1, 2), hollow=Bool(), **PROBE)
def delete(g, graph, a, b, c, d, which, hollow, s, p, o):
    g.requires(a != b and a != c and a != d and b != c and b != d and c != d)
    kind = Hollow if hollow else Collection
    top, x, y, z = kind(a), kind(b), kind(c), kind(d)
    x.parent = top
    y.parent = top
    z.parent = x
    before = (s, p, o) in graph
    gone = [x, y, z][which]
    del top[gone.id]
    if which == 0:
        g.ensures("first member gone", top.members == [y])
    elif which == 1:
        g.ensures("second member gone", top.members == [x] and x.members == [z])
    else:
        g.ensures("descendant gone", len(top.members) == 2 and x.members == [])
    g.ensures("no longer found", g.outcome(lambda: top[gone.id]) == ("raise", "UnknownCollection") and gone.id not in top)
    g.ensures("exactly the statements about it are gone", ((s, p, o) in graph) == (before and s != gone.asNode() and o != gone.asNode()))
    g.ensures("an unknown member cannot be removed", g.outcome(lambda: top.__delitem__(gone.id)) == ("raise", "UnknownCollection"))


# ---------------------------------------------------------------- bounded: whole trees
class Tree(object):
    """A random tree of distinct identifiers: kids[id] = ids, up[id] = id."""
    def __init__(self, rng):
        self.ids = ["urn:n%d" % i for i in range(rng.randint(1, 9))]
        self.up = {self.ids[i]: self.ids[rng.randint(max(0, i - 3), i - 1)] for i in range(1, len(self.ids))}
        self.readable = {i for i in self.ids if rng.random() < .4}
        self.hollow = {i for i in self.ids if rng.random() < .3}
        self.pick = rng.choice(self.ids)

    def describe(self):
        return str(self.up)

    def kids(self, n):
        return [i for i in self.ids if self.up.get(i) == n]

    def below(self, n):
        return {i for k in self.kids(n) for i in {k} | self.below(k)}

    def build(self):
        class Readable(Collection):
            readable = True

        class ReadableHollow(Hollow):
            readable = True
        kinds = [[Collection, Hollow], [Readable, ReadableHollow]]
        made = {i: kinds[i in self.readable][i in self.hollow](i) for i in self.ids}
        for i, u in self.up.items():
            made[i].parent = made[u]
        return made


@M.goal(of=(Collection.descendants.fget, Collection.parents.fget, Collection.__getitem__, Collection.__contains__, Collection.__delitem__),
        tree=Custom(None, Tree), bounded=True, samples=150)
def trees(g, tree):
    made = tree.build()
    for i in tree.ids:
        c = made[i]
        g.ensures("members", [m.id for m in c.members] == tree.kids(i) and c.size == len(tree.kids(i)))
        g.ensures("descendants, each once", sorted(d.id for d in c.descendants) == sorted(tree.below(i)))
        g.ensures("readable descendants", sorted(d.id for d in c.readableDescendants) == sorted(tree.below(i) & tree.readable))
        up = []
        while (up[-1] if up else i) in tree.up:
            up.append(tree.up[up[-1] if up else i])
        g.ensures("parents", [q.id for q in c.parents] == up)
        for j in tree.ids:
            inside = j == i or j in tree.below(i)
            g.ensures("contains", (j in c) == inside)
            g.ensures("lookup", g.outcome(lambda: c[j] is made[j]) == (("ok", True) if inside else ("raise", "UnknownCollection")))
    gone = tree.pick
    if gone in tree.up:
        top = made[tree.ids[0]]
        before = set(get_graph())
        del top[gone]
        g.ensures("removed with what is below it", sorted(d.id for d in top.descendants) == sorted(
            tree.below(top.id) - {gone} - tree.below(gone)))
        g.ensures("only its own statements go", set(get_graph()) == {t for t in before if URIRef(gone) not in (t[0], t[2])})
