"""C17: an object exports to exactly the formats it announces; text exports carry the text of the passage."""
import inspect
from lxml import etree
from pyvc.goals import *
from pyvc import interp as I
from contracts.domains import *
from MyCapytain.common.base import Exportable

M = Module("C17")
FORMAT = Str(gen=lambda rng: rng.choice(["", "text/a", "text/b", "text/c"]))


# ---------------------------------------------------------------- any hierarchy of classes
class Thing(Exportable):
    """An object of a class whose hierarchy is any list of classes."""


def sym_thing(it, name):
    """Each class of the hierarchy announces any list of formats, or nothing at all; its exporter says who was asked what."""
    e = it.e
    has = e.uf(name + ".announces", z3.IntSort(), z3.BoolSort())
    size = e.uf(name + ".size", z3.IntSort(), z3.IntSort())
    fmt = e.uf(name + ".format", z3.IntSort(), z3.IntSort(), z3.StringSort())
    pos = e.uf(name + ".position", CLS.sort, z3.IntSort())
    cls = e.uf(name + ".class", z3.IntSort(), CLS.sort)

    def announced(it_, r):
        p = pos(r.t)
        if not e.branch(has(p)):
            it_.throw(AttributeError, "EXPORT_TO")
        e.fact(size(p) >= 0)
        return PList([("b", Base(size(p), lambda k: SStr((fmt(p, k),)), ident=("formats", p.sexpr())))])

    def exporter(it_, r):
        return I.Native(lambda it__, a, k: ("exported", r, tuple(a), tuple((n, k[n]) for n in sorted(k))))

    def at(j):
        e.fact(pos(cls(j)) == j)
        return Ref(CLS, cls(j))
    CLS.fields.update({"EXPORT_TO": announced, "__export__": exporter, "__mro__": lambda it_, r: it_.hierarchy})
    it.hierarchy = sym_list(it, name + ".hierarchy", at, minlen=1)
    t = it.call(Thing, [])
    it.setattr(t, "DEFAULT_EXPORT", Opt(FORMAT).sym(it, name + ".default"))
    return t


CLS = I.Kind("Class", eq=lambda it, r, o: SBool(r.t == o.t) if isinstance(o, Ref) else False)


def kind_of(it, a, k):
    if len(a) == 1 and isinstance(a[0], Obj) and a[0].cls is Thing:
        return it.getitem(it.hierarchy, 0)
    return it.builtin_type(type, a, k)


def setup(it):
    it.models[type] = kind_of
    it.models[inspect.getmro] = lambda it_, a, k: it_.hierarchy

    class Hierarchy(object):
        def apply(self, it_, a, k):
            return it_.hierarchy
    it.contracts[hierarchy] = Hierarchy()


def hierarchy(thing):
    return list(inspect.getmro(type(thing)))


def gen_thing(rng):
    def cls(i, *bases):
        def export(self, *args, **kwargs):
            return ("exported", made[i], (self,) + args, tuple((n, kwargs[n]) for n in sorted(kwargs)))
        body = {"__export__": export}
        if rng.random() < .7:
            body["EXPORT_TO"] = [FORMAT.gen(rng) for _ in range(rng.randint(0, 2))]
        made[i] = type("K%d" % i, bases, body)
        return made[i]
    made = {}
    a = cls(0, object)
    b = cls(1, Exportable)
    c = cls(2, b) if rng.random() < .5 else cls(2, a, Exportable)
    d = cls(3, c, b) if issubclass(c, b) else cls(3, c, a)
    t = d()
    if rng.random() < .7:
        t.DEFAULT_EXPORT = FORMAT.gen(rng)
    return t


def announcing(classes, output):
    """The first class of the hierarchy that announces the format."""
    for c in classes:
        if hasattr(c, "EXPORT_TO") and output in c.EXPORT_TO:
            return c
    return None


THING = Custom(sym_thing, gen_thing)


@M.goal(of=(Exportable.export, Exportable.export_capacities.fget), thing=THING, output=Opt(FORMAT), value=FORMAT, setup=setup)
def export(g, thing, output, value):
    r = g.outcome(lambda: thing.export(output, option=value))
    asked = thing.DEFAULT_EXPORT if output is None else output
    c = None if asked is None else announcing(hierarchy(thing), asked)
    if r[0] == "ok":
        g.ensures("a class announces the format", c is not None)
        g.ensures("the first one does it", r[1][0] == "exported" and r[1][1] == c)
        g.ensures("with what it was given", r[1][2][0] is thing and r[1][2][1:] == (asked,) and r[1][3] == (("option", value),))
    else:
        g.ensures("a format nobody announces is an error", r == ("raise", "NotImplementedError") and c is None)


@M.goal(of=(Exportable.export_capacities.fget,), thing=THING, output=FORMAT, setup=setup)
def capacities(g, thing, output):
    listed = thing.export_capacities
    g.ensures("exactly what the classes announce", (output in listed) == (announcing(hierarchy(thing), output) is not None))


# ---------------------------------------------------------------- bounded: exports of texts
from MyCapytain.common.constants import Mimetypes
from MyCapytain.common.reference import CtsReference
from MyCapytain.common.utils import normalize
from MyCapytain.resources.texts.base.tei import TeiResource
from contracts.documents import Doc, ref

TEI = "{http://www.tei-c.org/ns/1.0}"


def squeezed(text):
    """Runs of two spaces or more made one."""
    while "  " in text:
        text = text.replace("  ", " ")
    return text


def selected(node, left_out):
    """Text nodes of an element in document order, except those inside elements left out (around it too)."""
    return [] if any(x.tag in left_out for x in node.iterancestors()) else pieces(node, left_out, [])


def pieces(node, left_out, out):
    if node.tag is etree.Comment or node.tag is etree.ProcessingInstruction or node.tag in left_out:
        return out
    if node.text:
        out.append(node.text)
    for child in node.iterchildren():
        pieces(child, left_out, out)
        if child.tail:
            out.append(child.tail)
    return out


def gen_markup(rng, depth=0):
    out = ""
    for i in range(rng.randint(0, 3)):
        out += rng.choice(["a ", "  b", "c\n", " ", "d"])
        if depth < 3 and rng.random() < .7:
            tag = rng.choice(["note", "hi", "seg", "seg"])
            out += "<%s>%s</%s>" % (tag, gen_markup(rng, depth + 1), tag)
        elif rng.random() < .3:
            out += rng.choice(["<!-- x -->", "<?x y?>", "<lb/>"])
    return out + rng.choice(["", "e "])


EXCLUDE = Custom(None, lambda rng: rng.choice([None, [], ["tei:note"], ["tei:hi", "tei:note"], ["tei:seg"]]))


@M.goal(of=(TeiResource.__export__, TeiResource.export, normalize), markup=Custom(None, gen_markup), exclude=EXCLUDE, default=EXCLUDE,
        join=Custom(None, lambda rng: rng.choice([None, "", "|", "  "])), at=Custom(None, lambda rng: rng.random()),
        bounded=True, samples=600)
def plaintext(g, markup, exclude, default, join, at):
    """A text, or an element inside a text."""
    root = etree.fromstring("<TEI xmlns='http://www.tei-c.org/ns/1.0'>%s</TEI>" % markup)
    inside = list(root.iter(etree.Element))
    t = TeiResource(identifier="urn:x", resource=inside[int(at * len(inside))])
    if join is not None:
        t.plaintext_string_join = join
    t.default_exclude = default or []
    before, kept = etree.tostring(root), list(exclude) if exclude else exclude
    out = t.export(output=Mimetypes.PLAINTEXT, exclude=exclude)
    left_out = [TEI + x[4:] for x in (t.default_exclude if exclude is None else exclude)]
    glue = " " if join is None else join
    g.ensures("the text nodes not inside excluded elements", out == squeezed(glue.join(selected(t.resource, left_out))))
    g.ensures("text is the plain text without what is excluded by default", t.text == squeezed(
        glue.join(selected(t.resource, [TEI + x[4:] for x in t.default_exclude]))))
    g.ensures("nothing changes", etree.tostring(root) == before and exclude == kept)
    g.ensures("plain text is the default", t.export(exclude=exclude) == out)
    g.ensures("the tree itself", t.export(output=Mimetypes.PYTHON.ETREE) is t.resource and t.xml is t.resource)
    for m in (Mimetypes.XML.Std, Mimetypes.XML.TEI):
        g.ensures("XML of the tree", same_xml(t.export(output=m), t.resource))
    g.ensures("printed as XML", str(t) == t.export(output=Mimetypes.XML.Std))


def same_xml(text, node):
    return etree.tostring(etree.fromstring(text), method="c14n", exclusive=True) == \
        etree.tostring(node, method="c14n", exclusive=True, with_tail=False)


def nested(doc, t, refs, exclude):
    out = {}
    for r in refs:
        d = out
        for n in r[:-1]:
            d = d.setdefault(n, {})
        d[r[-1]] = t.getTextualNode(CtsReference(ref(r))).export(output=Mimetypes.PLAINTEXT, exclude=exclude)
    return out


def same_dict(a, b):
    return list(a) == list(b) and all(same_dict(a[k], b[k]) if isinstance(b[k], dict) else a[k] == b[k] for k in b)


@M.goal(of=(TeiResource.__export__,), doc=Custom(None, Doc), at=Custom(None, lambda rng: rng.random()), exclude=EXCLUDE, bounded=True, samples=250)
def documents(g, doc, at, exclude):
    t = doc.text(urn="urn:cts:ns:a.b.c")
    refs = doc.refs(doc.depth)
    out = t.export(output=Mimetypes.PYTHON.NestedDict, exclude=exclude)
    g.ensures("every passage under its reference, in order", same_dict(out, nested(doc, t, refs, exclude)))
    g.ensures("all the words", squeezed(" ".join(t.export(exclude=["tei:note", "tei:teiHeader"]).split())) == " ".join(w for r in refs for w in doc.words(r)))
    r = refs[int(at * len(refs))]
    for simple in (False, True):
        p = t.getTextualNode(CtsReference(ref(r)), simple=simple)
        g.ensures("words of the passage", p.export(exclude=["tei:note"]).split() == doc.words(r))
        g.ensures("XML of the passage", same_xml(p.export(output=Mimetypes.XML.Std), p.resource) and same_xml(str(p), p.resource))
