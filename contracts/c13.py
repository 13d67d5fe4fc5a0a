"""C13: dispatching collections to inventories: the last registered filter that accepts decides."""
from pyvc.goals import *
from pyvc import interp as I
from contracts.domains import *
from MyCapytain.resolvers.utils import CollectionDispatcher
from MyCapytain.resolvers.cts.local import CtsCapitainsLocalResolver
from MyCapytain.resources.prototypes.cts.inventory import (
    CtsTextMetadata, CtsEditionMetadata, CtsWorkMetadata, CtsTextgroupMetadata, CtsTextInventoryMetadata, CtsTextInventoryCollection)

M = Module("C13")
NAME = Str(nonempty=True, gen=lambda rng: rng.choice(["one", "two", "three"]))
ANSWERS = [True, False, 1]


# ---------------------------------------------------------------- any list of filters
class Thing(object):
    parent = None
    id = "urn:thing"


class Filter(object):
    """A filter with its answer; it records nothing and is given the path."""
    def __init__(self, answer):
        self.answer = answer

    def __call__(self, collection, path=None, **kwargs):
        return self.answer if path == "here" and not kwargs else "no path"

    def __repr__(self):
        return "Filter(%r)" % (self.answer,)


def answer(it, j, name):
    """What the filter j of the list answers: one of ANSWERS."""
    e = it.e
    k = e.uf(name + ".answer", z3.IntSort(), z3.IntSort())(j)
    for i in range(len(ANSWERS) - 1):
        if e.branch(k == i):
            return ANSWERS[i]
    return ANSWERS[-1]


def sym_filters(it, name):
    n = it.e.uf(name + ".name", z3.IntSort(), z3.StringSort())

    def at(j):
        def fn(it_, a, k):
            if not (len(a) == 1 and set(k) == {"path"} and it_.truth(it_.eq(k["path"], "here"))):
                return "no path"
            return answer(it_, j, name)
        return (SStr((n(j),)), I.Native(fn))
    return sym_list(it, name, at)


FILTERS = Custom(sym_filters, lambda rng: [(rng.choice(["one", "two", "three"]), Filter(rng.choice(ANSWERS))) for _ in range(rng.randint(0, 4))])


class Children(object):
    def __getitem__(self, name):
        return ("inventory", name)


class Root(object):
    def __init__(self):
        self.children = Children()


def first_accepting(filters, x):
    for name, f in filters:
        if f(x, path="here") is True:
            return ("inventory", name)
    return None


@M.goal(of=(CollectionDispatcher.dispatch,), filters=FILTERS)
def dispatch(g, filters):
    """The filters are given latest first."""
    d = CollectionDispatcher(Root(), "default")
    d.__methods__ = filters[::-1]
    x = Thing()
    r = g.outcome(lambda: d.dispatch(x, path="here"))
    target = first_accepting(filters, x)
    if r[0] == "ok":
        g.ensures("it goes where the latest filter accepting it says", r[1] is None and x.parent == target and target is not None)
    else:
        g.ensures("no filter accepts it", r == ("raise", "UndispatchedTextError") and x.parent is None and target is None)


@M.goal(of=(CollectionDispatcher.add, CollectionDispatcher.inventory, CollectionDispatcher.methods.fget), filters=FILTERS, name=NAME, other=NAME)
def register(g, filters, name, other):
    d = CollectionDispatcher(Root(), "default")
    d.__methods__ = list(filters)
    f, h = Filter(True), Filter(False)
    d.add(f, name)
    g.ensures("added after the others", d.methods == filters + [(name, f)])
    g.ensures("decorator gives the function back", d.inventory(other)(h) is h)
    g.ensures("and adds it", d.methods == filters + [(name, f), (other, h)])
    d.add(f, name)
    g.ensures("added again, it is the latest again", d.methods == filters + [(name, f), (other, h), (name, f)])
    x = Thing()
    e = CollectionDispatcher(Root(), "default")
    first, second = (lambda c, **kw: True), (lambda c, **kw: True)
    for fn, where in [(first, name), (second, other), (first, name)]:
        e.add(fn, where)
    e.dispatch(x, path="here")
    g.ensures("and decides again", x.parent == ("inventory", name))


@M.goal(of=(CollectionDispatcher.__init__, CollectionDispatcher.dispatch), a=NAME, b=NAME, chosen=Opt(Choice(0, 1)))
def default(g, a, b, chosen):
    g.requires(a != b)
    root = CtsTextInventoryCollection("root")
    one, two = CtsTextInventoryMetadata(a, parent=root), CtsTextInventoryMetadata(b, parent=root)
    d = CollectionDispatcher(root) if chosen is None else CollectionDispatcher(root, (a, b)[chosen])
    x = CtsTextgroupMetadata("urn:cts:ns:tg")
    d.dispatch(x, path="here", other="thing")
    g.ensures("everything goes to the inventory named, or else the first", x.parent is (two if chosen == 1 else one))


# ---------------------------------------------------------------- the local resolver
class Quiet(object):
    def error(self, *args):
        pass

    info = warning = error


def sym_accepts(it, name):
    f = it.e.uf(name, z3.StringSort(), z3.BoolSort())

    def fn(it_, a, k):
        c = a[0]
        return SBool(f(sterm(it_.getattr(c, "id"))))
    return I.Native(fn)


ACCEPTS = Custom(sym_accepts, lambda rng: (lambda ids: lambda c, **kw: c.id in ids)(
    ["urn:cts:ns:%s" % x for x in rng.sample("abc", rng.randint(0, 3))]))
PART = Str(nonempty=True, lacks=":.#@-", gen=lambda rng: rng.choice(["a", "b", "c"]))


def resolver(dispatcher):
    return CtsCapitainsLocalResolver([], logger=Quiet(), dispatcher=dispatcher, autoparse=False)


@M.goal(of=(CtsCapitainsLocalResolver._dispatch, CtsCapitainsLocalResolver._dispatch_container), a=PART, b=PART, c=PART, t=PART, u=PART,
        first=ACCEPTS, second=ACCEPTS, loud=Bool())
def groups(g, a, b, c, t, u, first, second, loud):
    """Two text groups from two folders, with a work each."""
    root = CtsTextInventoryCollection("root")
    one, two = CtsTextInventoryMetadata("one", parent=root), CtsTextInventoryMetadata("two", parent=root)
    d = CollectionDispatcher(root, "one")
    d.__methods__ = []
    d.add(first, "one")
    d.add(second, "two")
    r = resolver(d)
    r.RAISE_ON_UNDISPATCHED = loud
    x, y = CtsTextgroupMetadata("urn:cts:ns:" + a), CtsTextgroupMetadata("urn:cts:ns:" + b)
    w, v = CtsWorkMetadata(x.id + ".w", parent=x), CtsWorkMetadata(y.id + "." + c, parent=y)
    s, e = CtsEditionMetadata(w.id + "." + t, parent=w, lang="lat"), CtsEditionMetadata(v.id + "." + u, parent=v, lang="grc")
    out = g.outcome(lambda: r._dispatch_container(x, "/x"))
    where = two if second(x) else one if first(x) else None
    if where is None:
        g.ensures("a group nobody accepts is an error only when asked", out[0] == ("raise" if loud else "ok") and
                  x.id not in root and x.parent is None)
        if loud:
            g.ensures("which error", out[1] == "UndispatchedTextError")
        return
    g.ensures("dispatched", out[0] == "ok" and x.parent is where and where.members == [x] and (one if where is two else two).members == [])
    out = g.outcome(lambda: r._dispatch_container(y, "/y"))
    if a == b:
        g.ensures("a known group is merged into the one known", out[0] == "ok" and where.members == [x] and y.parent is None)
        works = {w.id, v.id}
        g.ensures("its works with their texts", set(x.works) == works and
                  set(x.works[v.id].texts) == ({s.id, e.id} if w.id == v.id else {e.id}) and set(x.works[w.id].texts) >= {s.id})
    else:
        there = two if second(y) else one if first(y) else None
        if there is None:
            g.ensures("refused", out[0] == ("raise" if loud else "ok") and y.id not in root)
        else:
            g.ensures("another group goes where its filter says", out[0] == "ok" and y.parent is there and root[y.id] is y and
                      list(y.works) == [v.id] and list(v.texts) == [e.id])
        g.ensures("the first stays", x.parent is where and root[x.id] is x and list(x.works) == [w.id])
