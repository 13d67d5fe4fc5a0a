"""C09: the references of a text at a level are exactly those of its citation hierarchy, in document order."""
import warnings
from pyvc.goals import *
from contracts.domains import *
from contracts.documents import Doc, ref
from MyCapytain.common.reference import CtsReference, CtsReferenceSet, Citation
from MyCapytain.resources.texts.local.capitains.cts import CapitainsCtsPassage, CapitainsCtsText, _SimplePassage, _SharedMethods

M = Module("C09")
M.assumptions.append("Citation.fill followed by XPath selects exactly the elements carrying the given values at each level "
                     "(contract used by the proofs; C07 'selects' and the bounded goals here test it on real documents)")


class Level(Citation):
    """A citation level whose filled pattern stands for 'the elements below these values'."""
    def fill(self, passage=None, xpath=None):
        return (self.name, passage)


class Element(object):
    def __init__(self, label):
        self.label = label

    def get(self, name):
        return self.label if name == "n" else None


class Document(object):
    """A document: labels(values) are the labels found below these values, in order."""
    def __init__(self, labels):
        self.labels = labels

    def xpath(self, query, namespaces=None):
        name, values = query
        assert values[-1] is None and int(name) == len(values)
        return [Element(n) for n in self.labels(values[:-1])]


class AnyText(CapitainsCtsText):
    def __init__(self, labels, depth):
        c = None
        for i in range(depth, 0, -1):
            c = Level(name=str(i), refsDecl="/a[@n='$1']", child=c)
        self._citation = c
        self.resource = Document(labels)


def below(labels, prefix, k):
    """The references k levels below prefix, in order."""
    if k == 0:
        return [prefix]
    return [r for n in labels(prefix) for r in below(labels, prefix + [n], k - 1)]


def sym_labels(it, name, least=0):
    e = it.e

    def labels(it, a, kw):
        prefix = [sterm(v) for k, v in a[0].parts]
        srt = [z3.StringSort()] * len(prefix)
        n = e.uf("%s.n%d" % (name, len(prefix)), *(srt + [z3.IntSort()]))(*prefix) if prefix else z3.Int(name + ".n0")
        f = e.uf("%s.at%d" % (name, len(prefix)), *(srt + [z3.IntSort(), z3.StringSort()]))
        e.fact(n >= least)

        def at(j):
            t = f(*(prefix + [j]))
            e.keep.append(t)
            for c in "-@.":
                e.lack_facts[(t.get_id(), c)] = True
                e.fact(z3.Not(z3.Contains(t, z3.StringVal(c))))
            e.fact(z3.Length(t) > 0)
            return SStr((t,))
        return PList([("b", Base(n, at, ("labels", name, str([str(p) for p in prefix]))))])
    return Native(labels)


class Labels(object):
    def __init__(self, rng, least=0):
        self.seed, self.least = rng.random(), least

    def __call__(self, prefix):
        import random
        rng = random.Random("%s%s" % (self.seed, prefix))
        return rng.sample(["1", "2", "a", "é"], max(self.least, rng.choice([0, 1, 1, 2, 3])))

    def describe(self):
        return "labels seeded %s" % self.seed


LABELS = Custom(sym_labels, Labels)
FULL = Custom(lambda it, name: sym_labels(it, name, 1), lambda rng: Labels(rng, 1))
PART = Str(lacks="-@.", nonempty=True, gen=lambda rng: rng.choice(["1", "2", "a", "é"]))


def texts(refs):
    return [CtsReference(".".join(r)) for r in refs]


@M.goal(of=(_SharedMethods.getValidReff,), labels=LABELS, depth=Choice(1, 2), level=Choice(None, 1, 2, 3))
def whole_text(g, labels, depth, level):
    t = AnyText(labels, depth)
    r = g.outcome(lambda: t.getValidReff(level))
    k = 1 if level is None else level
    if k > depth:
        g.ensures("too deep", r == ("raise", "CitationDepthError"))
        return
    want = below(labels, [], k)
    if len(want) == 0:
        g.ensures("no reference is an error", r == ("raise", "KeyError"))
    else:
        g.ensures("answers", r[0] == "ok")
        g.ensures("exactly the references of the level, in order", list(r[1]) == texts(want))
        g.ensures("level", r[1].level == k and r[1].citation.name == str(k))


@M.goal(of=(_SharedMethods.getValidReff,), labels=FULL, depth=Choice(3, 4), level=Choice(1, 2, 3))
def deep_text(g, labels, depth, level):
    g.requires(level <= depth)
    r = AnyText(labels, depth).getValidReff(level)
    want = below(labels, [], level)
    g.ensures("as many references", len(r) == len(want))
    g.ensures("exactly the references of the level, in order", list(r) == texts(want))
    g.ensures("level", r.level == level and r.citation.name == str(level))


@M.goal(of=(_SharedMethods.getValidReff,), labels=FULL, depth=Choice(1, 2, 3, 4), level=Choice(None, 0, 1, 2, 3, 4), a=PART, b=PART, c=PART, d=Choice(1, 2, 3))
def below_passage(g, labels, depth, level, a, b, c, d):
    prefix = [a, b, c][:d]
    t = AnyText(labels, depth)
    k = max(level or 1, d + 1)
    r = g.outcome(lambda: t.getValidReff(level, CtsReference(".".join(prefix))))
    if k > depth:
        g.ensures("too deep", r == ("raise", "CitationDepthError"))
    else:
        g.ensures("answers", r[0] == "ok")
        g.ensures("exactly the references below the passage, in order", list(r[1]) == texts(below(labels, prefix, k - d)))
        g.ensures("level", r[1].level == k and r[1].citation.name == str(k))


@M.goal(of=(_SharedMethods.getValidReff,), labels=LABELS, a=PART, b=PART, d=Choice(1, 2))
def unknown_passage(g, labels, a, b, d):
    prefix = [a, b][:d]
    t = AnyText(labels, d + 1)
    r = g.outcome(lambda: t.getValidReff(d + 1, CtsReference(".".join(prefix))))
    if len(labels(prefix)) == 0:
        g.ensures("nothing below is an error", r == ("raise", "KeyError"))
    else:
        g.ensures("answers", r[0] == "ok")


@M.goal(of=(_SharedMethods.getReffs,), labels=FULL, level=Choice(1, 2, 3), sub=Opt(PART))
def get_reffs(g, labels, level, sub):
    t = AnyText(labels, 3)
    if sub is None:
        g.ensures("of the text", list(t.getReffs(level)) == list(t.getValidReff(level)))
        g.ensures("first level by default", list(t.getReffs()) == texts(below(labels, [], 1)))
    else:
        want = list(t.getValidReff(level, CtsReference(sub)))
        g.ensures("below a passage given as text", list(t.getReffs(level, sub)) == want)
        g.ensures("below a passage given as reference", list(t.getReffs(level=level, subreference=CtsReference(sub))) == want)


# ---------------------------------------------------------------- bounded: real documents
BOUND = dict(bounded=True, samples=100)


@M.goal(of=(_SharedMethods.getValidReff, _SharedMethods.getReffs, _SimplePassage.getReffs), doc=Custom(None, lambda rng: Doc(rng, depth=rng.randint(1, 4), maxwidth=3)), **BOUND)
def documents(g, doc):
    t = doc.text()
    for level in range(1, doc.depth + 1):
        want = [ref(r) for r in doc.refs(level)]
        got = t.getReffs(level=level)
        g.ensures("references of the level", [str(r) for r in got] == want)
        g.ensures("level and citation", got.level == level and got.citation is list(t.citation)[level - 1])
        for r in doc.refs(level):
            for deeper in range(level + 1, doc.depth + 1):
                want = [ref(r + x) for x in doc.refs(deeper - level, doc.node(r))]
                g.ensures("below a passage", [str(x) for x in t.getReffs(level=deeper, subreference=CtsReference(ref(r)))] == want)
                p = t.getTextualNode(CtsReference(ref(r)))
                g.ensures("from the passage", [str(x) for x in p.getReffs(level=deeper)] == want)
                q = t.getTextualNode(CtsReference(ref(r)), simple=True)
                g.ensures("from the simple passage, counting from it", [str(x) for x in q.getReffs(level=deeper - level)] == want)
    g.ensures("too deep", g.outcome(lambda: t.getReffs(level=doc.depth + 1)) == ("raise", "CitationDepthError"))
    g.ensures("unknown passage", doc.depth == 1 or g.outcome(lambda: t.getReffs(level=2, subreference="nope")) == ("raise", "KeyError"))
    g.ensures("all references", [str(r) for r in t.reffs] == [ref(r) for i in range(doc.depth) for r in doc.refs(i + 1)])


def between(doc, level, start, end):
    """References of a level from the passage start to the passage end, both included."""
    refs = doc.refs(level)
    first = min(i for i, r in enumerate(refs) if r[:len(start)] == start)
    last = max(i for i, r in enumerate(refs) if r[:len(end)] == end)
    return refs[first:last + 1]


def gen_range(rng):
    return rng.randint(1, 3), rng.random(), rng.random()


@M.goal(of=(_SharedMethods.getValidReff,), doc=Custom(None, lambda rng: Doc(rng, depth=rng.randint(1, 3))), cut=Custom(None, gen_range),
        bounded=True, samples=500)
def ranges(g, doc, cut):
    level = min(cut[0], doc.depth)
    refs = doc.refs(level)
    i, j = sorted(int(x * len(refs)) for x in cut[1:])
    g.requires(i < j)
    start, end = refs[i], refs[j]
    t = doc.text()
    r = CtsReference(ref(start) + "-" + ref(end))
    same = [ref(x) for x in refs[i:j + 1]]
    g.ensures("references of the range", [str(x) for x in t.getReffs(level=0, subreference=r)] == same)
    g.ensures("from the passage", [str(x) for x in t.getTextualNode(r).getReffs(level=0)] == same)
    if level < doc.depth:
        want = [ref(x) for x in between(doc, level + 1, start, end)]
        g.ensures("one level below", [str(x) for x in t.getReffs(subreference=r)] == want)
        g.ensures("children of the passage", [str(x) for x in t.getTextualNode(r).childIds] == want)
    if level > 1:
        deepest = [ref(x) for x in between(doc, doc.depth, start, end)]
        g.ensures("deepest level", [str(x) for x in t.getReffs(level=doc.depth, subreference=r)] == deepest)


@M.goal(of=(_SharedMethods.getValidReff,), doc=Custom(None, lambda rng: Doc(rng, depth=rng.randint(1, 3))), dup=Bool(), empty=Bool(), **BOUND)
def duplicates(g, doc, dup, empty):
    """Asked to check, a text warns of references occurring twice and of empty ones."""
    from MyCapytain.errors import DuplicateReference, EmptyReference
    xml = doc.xml
    n, sub = doc.tree[0]
    head = "<%s n='%s'>" % (doc.step(0), n)
    i = xml.index("<body>") + len("<body>")
    again = "<%s n='%s'>x</%s>" % (doc.step(0), n, doc.step(0))
    nothing = "<%s n=''>x</%s>" % (doc.step(0), doc.step(0))
    t = CapitainsCtsText(resource=xml[:i] + (again if dup else "") + (nothing if empty else "") + xml[i:])
    with warnings.catch_warnings(record=True) as seen:
        warnings.simplefilter("always")
        t.getValidReff(level=1, _debug=True)
    kinds = [w.category for w in seen]
    g.ensures("duplicates", (DuplicateReference in kinds) == dup)
    g.ensures("empty", (EmptyReference in kinds) == empty)
