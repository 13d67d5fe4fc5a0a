"""Trusted contract of rdflib: terms, and a graph as a sequence of distinct triples."""
import rdflib
from rdflib import Graph, URIRef, BNode, Literal
from rdflib.namespace import NamespaceManager
from rdflib.term import Identifier
import z3

from .values import *
from .values import Heap
from . import interp as I
from .builtin_models import filter_parts, map_parts

NOTE = "rdflib.Graph/terms: contract of an ordered set of triples (set, add, addN, remove, objects, ...)"


TERM, mk_term, (t_kind, t_text, t_lang, t_dt) = z3.TupleSort(
    "Term", [z3.IntSort(), z3.StringSort(), z3.StringSort(), z3.StringSort()])
CLASSES = [URIRef, BNode, Literal]


def is_term(v):
    return isinstance(v, Identifier) or (isinstance(v, Obj) and issubclass(v.cls, Identifier)) \
        or (isinstance(v, Ref) and v.kind is KIND)


def encode(it, v):
    """The z3 value of a term."""
    if isinstance(v, Ref):
        return v.t
    cls = v.cls if isinstance(v, Obj) else type(v)
    k = [i for i, c in enumerate(CLASSES) if issubclass(cls, c)]
    if not k or cls is not CLASSES[k[0]]:
        raise Unsupported("encoding of %s" % cls.__name__)
    lang = dt = ""
    if cls is Literal:
        if isinstance(v, Obj):
            lang, dt = v.attrs.get("language"), v.attrs.get("datatype")
        else:
            lang, dt = v.language, v.datatype
    f = lambda x: z3.StringVal("") if x is None else sterm(x if not isinstance(x, Identifier) else str(x))
    return mk_term(z3.IntVal(k[0]), sterm(text(v)), f(lang), f(dt))


def resolve(it, r):
    """An abstract term as an instance of its class (forks)."""
    if not isinstance(r, Ref):
        return r
    t = r.t
    txt = SStr((z3.simplify(t_text(t)),))
    if it.e.branch(t_kind(t) == 0):
        return Obj(URIRef, {}, txt)
    if it.e.branch(t_kind(t) == 1):
        return Obj(BNode, {}, txt)
    lang = dt = None
    if not it.e.branch(t_lang(t) == ""):
        lang = SStr((t_lang(t),))
    if not it.e.branch(t_dt(t) == ""):
        dt = Obj(URIRef, {}, SStr((t_dt(t),)))
    return Obj(Literal, {"language": lang, "datatype": dt, "value": txt}, txt)


def term_field(name):
    def get(it, r):
        if not it.e.branch(t_kind(r.t) == 2):
            it.throw(AttributeError, "no attribute %s" % name)
        f = t_lang if name == "language" else t_dt
        if it.e.branch(f(r.t) == ""):
            return None
        s = SStr((f(r.t),))
        return s if name == "language" else Obj(URIRef, {}, s)
    return get


LITERAL_TRUTH = z3.Function("literal_truth", TERM, z3.BoolSort())


def truth_of(t):
    """bool() of a term: not empty, and whatever the value says for a literal with a datatype."""
    return z3.If(z3.And(t_kind(t) == 2, t_dt(t) != ""), LITERAL_TRUTH(t), z3.Length(t_text(t)) > 0)


KIND = I.Kind("Term", fields={"language": term_field("language"), "datatype": term_field("datatype"),
                              "*": lambda it, r, nm: it._getattr(resolve(it, r), nm)},
              isinst={URIRef: lambda it, r: mkbool(t_kind(r.t) == 0), BNode: lambda it, r: mkbool(t_kind(r.t) == 1),
                      Literal: lambda it, r: mkbool(t_kind(r.t) == 2), Identifier: True, str: True, object: True,
                      tuple: False, list: False, dict: False, int: False},
              to_str=lambda it, r: SStr((z3.simplify(t_text(r.t)),)),
              truth=lambda it, r: mkbool(truth_of(r.t)))
KIND.sort = TERM


def arbitrary_term(it, t, kinds=(0, 1, 2)):
    e = it.e
    e.fact(z3.Or(*[t_kind(t) == k for k in kinds]))
    if 2 in kinds:
        e.fact(z3.Implies(t_kind(t) != 2, z3.And(t_lang(t) == "", t_dt(t) == "")))
        e.fact(z3.Or(t_lang(t) == "", t_dt(t) == ""))
    else:
        e.fact(z3.And(t_lang(t) == "", t_dt(t) == ""))
    return Ref(KIND, t)


def lang_of(v):
    return v.attrs.get("language") if isinstance(v, Obj) else v.language


def dt_of(v):
    return v.attrs.get("datatype") if isinstance(v, Obj) else v.datatype


def text(v):
    if isinstance(v, Ref):
        return SStr((z3.simplify(t_text(v.t)),))
    return v.prim if isinstance(v, Obj) else str(v)


def term_eq(it, a, b):
    """rdflib's ==: same class, same text, and for literals same language and datatype."""
    if not (is_term(a) and is_term(b)):
        return False
    if isinstance(a, Ref) or isinstance(b, Ref):
        return mkbool(encode(it, a) == encode(it, b))
    ca, cb = (x.cls if isinstance(x, Obj) else type(x) for x in (a, b))
    if ca is not cb:
        return False
    if isinstance(a, Identifier) and isinstance(b, Identifier):
        return a == b
    tests = [lambda: it.e.str_eq(text(a), text(b))]
    if issubclass(ca, Literal):
        tests.append(lambda: it.eq(lang_of(a), lang_of(b)))
        tests.append(lambda: it.eq(dt_of(a), dt_of(b)))
    return it.conj(tests)


def mk_uri(it, cls, args, kw):
    v = args[0]
    if is_term(v):
        v = text(v)
    if isinstance(v, Obj):
        v = v.prim
    if isinstance(v, str):
        return cls(str(v))
    if isinstance(v, SStr):
        return Obj(cls, {}, prim=v)
    if v is None:
        it.throw(TypeError, "URIRef(None)")
    raise Unsupported("URIRef of %r" % (v,))


def mk_bnode(it, cls, args, kw):
    if args:
        return mk_uri(it, cls, args, kw)
    n = it.e.state.get("bnodes", 0)
    it.e.state["bnodes"] = n + 1
    return BNode("pyvc_fresh_%d" % n)


def mk_literal(it, cls, args, kw):
    v = args[0]
    lang = args[1] if len(args) > 1 else kw.get("lang")
    dt = args[2] if len(args) > 2 else kw.get("datatype")
    if isinstance(v, Ref):
        v = resolve(it, v)
    if isinstance(v, Literal) or isinstance(v, Obj) and issubclass(v.cls, Literal):
        if lang is None and dt is None:
            lang, dt = lang_of(v), dt_of(v)
        v = text(v)
    if isinstance(lang, Obj):
        lang = lang.prim
    if not isinstance(v, (SStr, SInt, SBool, Obj)) and not isinstance(lang, SStr):
        return Literal(str(v) if isinstance(v, Identifier) else v, lang=lang, datatype=dt)
    if isinstance(lang, (str, SStr)) and not it.truth(lang):
        lang = None  # rdflib turns an empty language into none
    if isinstance(v, SInt):
        dt = dt or rdflib.XSD.integer
        v = it.to_str(v)
    elif isinstance(v, SBool):
        raise Unsupported("boolean literal")
    elif isinstance(v, Obj):
        v = it.to_str(v)
    return Obj(cls, {"language": lang, "datatype": dt, "value": v}, prim=v)


# ---------------------------------------------------------------- graphs
def new_graph(it, parts=()):
    it.e.trusted.add(NOTE)
    return Obj(Graph, {"triples": PList(list(parts)), "identifier": BNode("graph")})


def mk_graph(it, cls, args, kw):
    return new_graph(it)


def global_graph(it, args=(), kw=None):
    g = it.e.state.get("graph")
    if g is None:
        g = it.e.state["graph"] = new_graph(it)
    return g


def triples(g, bag=True):
    if "log" in g.attrs:
        raise Unsupported("listing of a graph known through its membership")
    pl = g.attrs["triples"]
    if bag and getattr(pl, "bag", False):
        raise Unsupported("listing of a graph filled by a loop")
    return pl


def node_ok(it, v, what):
    if not is_term(v):
        it.throw(AssertionError, "%s must be an rdflib term" % what)


def matches(it, t, pat):
    return it.truth(it.conj([lambda x=x, p=p: it.eq(x, p) for x, p in zip(t, pat) if p is not None]))


# A graph known only through its membership: a base predicate and the operations since, oldest first.
def logged(g):
    return g.attrs.get("log")


def log_op(it, g, op, t):
    pl = g.attrs["log"]
    it.check_poison(pl)
    it.e.jset(pl, "parts", pl.parts + [("i", (op, tuple(None if x is None else encode(it, x) for x in t)))])
    return g


def log_contains(it, g, pat):
    if any(x is None for x in pat):
        raise Unsupported("open pattern on a graph known through its membership")
    pl = g.attrs["log"]
    it.check_poison(pl)
    t = [encode(it, x) for x in pat]
    out = g.attrs["base"](*t)
    for _, (op, u) in pl.parts:
        m = z3.And([a == b for a, b in zip(t, u) if b is not None] or [z3.BoolVal(True)])
        out = z3.Or(out, m) if op == "add" else z3.And(out, z3.Not(m))
    return mkbool(z3.simplify(out))


def any_graph(it, name="G"):
    """Any graph, known through its membership only."""
    it.e.trusted.add(NOTE)
    f = it.e.uf(name + ".has", TERM, TERM, TERM, z3.BoolSort())
    g = Obj(Graph, {"log": PList([]), "base": f, "identifier": BNode("graph")})
    it.e.state["graph"] = g
    return g


def select(it, g, pat):
    if logged(g) is not None:
        raise Unsupported("search in a graph known through its membership")
    pl = triples(g)
    it.check_poison(pl)
    parts = list(pl.parts)
    if all(p is None for p in pat):
        return parts
    return filter_parts(it, parts, lambda t: matches(it, t, pat))


def g_add(it, args, kw):
    g, t = args[0], tuple(v for _, v in it.iterate(args[1]))
    for x in t:
        node_ok(it, x, "triple member")
    if logged(g) is not None:
        return log_op(it, g, "add", t)
    pl = triples(g, False)
    if pl.poison:
        pl.bag = True   # what earlier iterations added is not known: membership is exact, multiplicity is not
    if it.search(pl.parts, lambda u: matches(it, u, t)) is None:
        it.e.jset(pl, "parts", pl.parts + [("i", t)])
    return g


def g_addN(it, args, kw):
    for k, q in it.iterate(args[1]):
        if k != "i":
            raise Unsupported("addN of a symbolic sequence")
        g_add(it, [args[0], tuple(q[:3])], {})
    return args[0]


def g_set(it, args, kw):
    g, t = args[0], tuple(v for _, v in it.iterate(args[1]))
    if t[0] is None or t[1] is None:
        it.throw(AssertionError, "s and p must not be None")
    g_remove(it, [g, (t[0], t[1], None)], {})
    return g_add(it, [g, t], {})


def g_remove(it, args, kw):
    g, pat = args[0], tuple(v for _, v in it.iterate(args[1]))
    if logged(g) is not None:
        return log_op(it, g, "remove", pat)
    pl = triples(g)
    it.check_poison(pl)
    if all(p is None for p in pat):
        it.e.jset(pl, "parts", [])
        return g
    kept = filter_parts(it, list(pl.parts), lambda t: not matches(it, t, pat))
    it.e.jset(pl, "parts", kept)
    return g


def project(it, parts, f):
    return map_parts(it, parts, f)


def unique(it, parts):
    if all(k == "i" for k, _ in parts):
        out = []
        for _, v in parts:
            if not any(it.truth(it.eq(v, w)) for w in out):
                out.append(v)
        return [("i", v) for v in out]
    return parts


def arg(args, kw, i, name):
    return args[i] if len(args) > i else kw.get(name)


def g_objects(it, args, kw):
    s, p = arg(args, kw, 1, "subject"), arg(args, kw, 2, "predicate")
    return I.IterVal(project(it, select(it, args[0], (s, p, None)), lambda t: t[2]))


def g_subjects(it, args, kw):
    p, o = arg(args, kw, 1, "predicate"), arg(args, kw, 2, "object")
    return I.IterVal(project(it, select(it, args[0], (None, p, o)), lambda t: t[0]))


def g_predicates(it, args, kw):
    s, o = arg(args, kw, 1, "subject"), arg(args, kw, 2, "object")
    return I.IterVal(project(it, select(it, args[0], (s, None, o)), lambda t: t[1]))


def g_po(it, args, kw):
    s = arg(args, kw, 1, "subject")
    return I.IterVal(project(it, select(it, args[0], (s, None, None)), lambda t: (t[1], t[2])))


def g_sp(it, args, kw):
    o = arg(args, kw, 1, "object")
    return I.IterVal(project(it, select(it, args[0], (None, None, o)), lambda t: (t[0], t[1])))


def g_so(it, args, kw):
    p = arg(args, kw, 1, "predicate")
    return I.IterVal(project(it, select(it, args[0], (None, p, None)), lambda t: (t[0], t[2])))


def g_triples(it, args, kw):
    return I.IterVal(select(it, args[0], tuple(v for _, v in it.iterate(args[1]))))


def g_contains(it, args, kw):
    pat = tuple(v for _, v in it.iterate(args[1]))
    if logged(args[0]) is not None:
        return log_contains(it, args[0], pat)
    it.check_poison(triples(args[0], False))
    return it.search(triples(args[0], False).parts, lambda t: matches(it, t, pat)) is not None


def g_iter(it, args, kw):
    return I.IterVal(list(triples(args[0]).parts))


def g_len(it, args, kw):
    return it.e.seq_len(triples(args[0]).parts)


def g_getitem(it, args, kw):
    k = args[1]
    if isinstance(k, Slice):
        raise Unsupported("graph slice")
    if isinstance(k, tuple):
        raise Unsupported("graph path lookup")
    return g_po(it, [args[0], k], {})


def g_value(it, args, kw):
    s, p = arg(args, kw, 1, "subject"), arg(args, kw, 2, "predicate")
    if s is None or p is None:
        raise Unsupported("graph.value with an open subject or predicate")
    dflt = kw.get("default")
    r = m_first(it, select(it, args[0], (s, p, None)))
    return dflt if r is None else r[2]


def m_first(it, parts):
    """The first element of a sequence of parts, or None when it is empty."""
    from .builtin_models import take_first
    r = take_first(it, parts)
    return None if r is None else r[0]


def ns_manager(it, args, kw):
    from MyCapytain.common import constants
    return constants.get_graph().namespace_manager


def to_python(it, v):
    if isinstance(v, Literal):
        return I.from_native(v.toPython())
    if dt_of(v) is not None:
        raise Unsupported("value of a typed literal")
    return v


def install(it):
    from MyCapytain.common import constants
    it.class_models[NamespaceManager] = lambda it, cls, a, k: ns_manager(it, a, k)
    it.models[Literal.language.fget] = lambda it, a, k: lang_of(a[0])
    it.models[Literal.datatype.fget] = lambda it, a, k: dt_of(a[0])
    it.models[Literal.toPython] = lambda it, a, k: to_python(it, a[0])
    it.class_models[URIRef] = mk_uri
    it.class_models[BNode] = mk_bnode
    it.class_models[Literal] = mk_literal
    it.class_models[Graph] = mk_graph
    M = it.models
    M[constants.get_graph] = lambda it, a, k: global_graph(it)
    for nm, h in (("add", g_add), ("addN", g_addN), ("set", g_set), ("remove", g_remove), ("objects", g_objects),
                  ("subjects", g_subjects), ("predicates", g_predicates), ("predicate_objects", g_po),
                  ("subject_predicates", g_sp), ("subject_objects", g_so), ("triples", g_triples),
                  ("__contains__", g_contains), ("__iter__", g_iter), ("__len__", g_len), ("__getitem__", g_getitem),
                  ("value", g_value)):
        M[getattr(Graph, nm)] = h
    M[Graph.namespace_manager.fget] = ns_manager
    M[Graph.namespace_manager.fset] = lambda it, a, k: None
    M[Graph.bind] = lambda it, a, k: None
    M[Graph.qname] = lambda it, a, k: qname(it, a[1])
    M[Graph.compute_qname] = lambda it, a, k: compute_qname(it, a[1])


def qname(it, uri):
    p, n, name = compute_qname(it, uri)
    return mkstr((it.to_str(p), ":", name)) if it.truth(p) else name


def compute_qname(it, uri):
    if isinstance(uri, str):
        return I.from_native(ns_manager(it, [], {}).compute_qname(str(uri)))
    t = sterm(uri)
    it.e.trusted.add("rdflib compute_qname: uninterpreted prefix/namespace/name with namespace+name = uri")
    f = [it.e.uf("qname_" + w, z3.StringSort(), z3.StringSort())(t) for w in ("prefix", "ns", "name")]
    it.e.fact(z3.Concat(f[1], f[2]) == t)
    return tuple(SStr((x,)) for x in f)


# ---------------------------------------------------------------- arbitrary graphs
def arbitrary_graph(it, name="G"):
    """Any graph: a symbolic sequence of distinct triples."""
    e = it.e
    fs, fp, fo = [e.uf(name + x, z3.IntSort(), TERM) for x in (".s", ".p", ".o")]
    n = z3.Int(name + ".n")
    e.assume(n >= 0)

    def at(j):
        return (arbitrary_term(it, fs(j), (0, 1)), arbitrary_term(it, fp(j), (0,)), arbitrary_term(it, fo(j)))
    g = new_graph(it, [("b", Base(n, at, ("input", name)))])
    e.state["graph"] = g
    return g
