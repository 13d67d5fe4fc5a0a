"""Value domain of the symbolic interpreter.

Concrete Python values stand for themselves.  Symbolic scalars wrap z3 terms.  Symbolic strings are *ropes*: a
tuple of pieces, each a Python str or a z3 String term ("atom"); this keeps the concatenation structure that
the split/join/format laws need.
"""
import z3


class Unsupported(Exception):
    """The code uses something the VC generator has no rule for: the obligation stays undischarged."""


class Infeasible(Exception):
    """The current path has a contradictory path condition."""


class Raise(Exception):
    """An exception of the interpreted program."""
    def __init__(self, exc):
        self.exc = exc  # Obj whose cls is the real exception class

    def __repr__(self):
        return "Raise(%r)" % (self.exc,)


class SInt(object):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return "SInt(%s)" % self.t


class SReal(object):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t


class SBool(object):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return "SBool(%s)" % self.t


class SStr(object):
    __slots__ = ("pieces", "_t")

    def __init__(self, pieces):
        self.pieces = tuple(pieces)
        self._t = None

    @property
    def t(self):
        if self._t is None:
            ts = [z3.StringVal(p) if isinstance(p, str) else p for p in self.pieces]
            self._t = ts[0] if len(ts) == 1 else z3.Concat(*ts)
        return self._t

    def __repr__(self):
        return "SStr(%s)" % (self.pieces,)


class Heap(object):
    """Mutable objects of the interpreted program; uid orders them by allocation."""
    __slots__ = ("uid",)
    counter = [0]

    def _alloc(self):
        Heap.counter[0] += 1
        self.uid = Heap.counter[0]


class Obj(Heap):
    """An instance of an interpreted (or exception) class. prim is the payload for str/tuple/dict/list subclasses."""
    __slots__ = ("cls", "attrs", "prim")

    def __init__(self, cls, attrs=None, prim=None):
        self._alloc()
        self.cls = cls
        self.attrs = attrs if attrs is not None else {}
        self.prim = prim

    def __repr__(self):
        return "<Obj %s#%d%s>" % (self.cls.__name__, self.uid, "" if self.prim is None else " %r" % (self.prim,))


class Ref(object):
    """An abstract instance of `kind` (see kinds.Kind): a z3 term of an uninterpreted sort."""
    __slots__ = ("kind", "t")

    def __init__(self, kind, t):
        self.kind = kind
        self.t = t

    def __repr__(self):
        return "<Ref %s %s>" % (self.kind.name, self.t)


class Base(object):
    """A symbolic sequence: length term and a function from index term to value. ident: syntactic identity."""
    __slots__ = ("n", "at", "ident", "elem")

    def __init__(self, n, at, ident=None, elem=None):
        self.n = n
        self.at = at
        self.ident = ident
        self.elem = elem

    def __repr__(self):
        return "<Base %s>" % (self.ident,)


class Flat(object):
    """Concatenation over i in [0,n) of emit(i), where emit(i) is a list of parts."""
    __slots__ = ("n", "emit", "ident", "family")

    def __init__(self, n, emit, ident=None, family=None):
        self.n = n
        self.emit = emit
        self.ident = ident
        self.family = family


class PList(Heap):
    """A mutable list of the interpreted program: parts are ('i', value) | ('b', Base) | ('f', Flat)."""
    __slots__ = ("parts", "poison", "bag")

    def __init__(self, parts=None):
        self._alloc()
        self.parts = list(parts or [])
        self.poison = False

    @classmethod
    def of(cls, values):
        return cls([("i", v) for v in values])

    def __repr__(self):
        return "PList(%s)" % (self.parts,)


class STuple(object):
    """A tuple of symbolic length."""
    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = list(parts)

    def __repr__(self):
        return "STuple(%s)" % (self.parts,)


class IterVal(Heap):
    """A stateful iterator over remaining parts."""
    __slots__ = ("parts", "poison")

    def __init__(self, parts):
        self._alloc()
        self.poison = False
        self.parts = list(parts)


class PDict(Heap):
    """A dictionary of the interpreted program with concretely many entries (keys may be symbolic).
    cls: class for dict subclasses; default: default factory (defaultdict)."""
    __slots__ = ("entries", "default", "poison")

    def __init__(self, entries=None, default=None):
        self._alloc()
        self.entries = [tuple(e) for e in (entries or [])]
        self.default = default
        self.poison = False

    def __repr__(self):
        return "PDict(%s)" % (self.entries,)


class PSet(Heap):
    __slots__ = ("items", "poison")

    def __init__(self, items=None):
        self._alloc()
        self.poison = False
        self.items = list(items or [])


class Slice(object):
    __slots__ = ("lo", "hi", "step")

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class BoundMethod(object):
    __slots__ = ("func", "self")

    def __init__(self, func, self_):
        self.func = func
        self.self = self_


class BuiltinMethod(object):
    """method `name` of the builtin type of `self` (str, list, dict, ...)."""
    __slots__ = ("name", "self")

    def __init__(self, name, self_):
        self.name = name
        self.self = self_


class Closure(object):
    """A function value created by interpretation (nested def or lambda), or a real function's AST."""
    __slots__ = ("node", "env", "globals", "clsname", "defaults", "kwdefaults", "name", "cell_class")

    def __init__(self, node, env, globals_, clsname, defaults, kwdefaults, name, cell_class=None):
        self.node, self.env, self.globals = node, env, globals_
        self.clsname, self.defaults, self.kwdefaults, self.name = clsname, defaults, kwdefaults, name
        self.cell_class = cell_class


class SuperVal(object):
    __slots__ = ("cls", "self", "owner")

    def __init__(self, cls, self_, owner):
        self.cls, self.self, self.owner = cls, self_, owner


class Poison(object):
    """Value of a variable whose content depends on an unknown number of loop iterations."""
    __slots__ = ("name", "thunk")

    def __init__(self, name, thunk=None):
        self.name = name
        self.thunk = thunk


class Native(object):
    """Escape hatch: a Python-implemented callable value handed to interpreted code (harness functions)."""
    __slots__ = ("fn", "name")

    def __init__(self, fn, name="native"):
        self.fn = fn
        self.name = name


class Opaque(object):
    """A value about which nothing is known or needed (messages, loggers). Any attribute/call gives Opaque."""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "Opaque(%s)" % self.name


def mkint(t):
    if isinstance(t, int):
        return t
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    return SInt(t)


def mkbool(t):
    if isinstance(t, bool):
        return t
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SBool(t)


def mkstr(pieces):
    out = []
    for p in pieces:
        if isinstance(p, SStr):
            sub = p.pieces
        else:
            sub = (p,)
        for q in sub:
            if isinstance(q, str):
                if q == "":
                    continue
                q = str.__str__(q)
                if out and isinstance(out[-1], str):
                    out[-1] = out[-1] + q
                    continue
            elif z3.is_string_value(q):
                q = q.as_string() if False else q
            out.append(q)
    if not out:
        return ""
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    return SStr(out)


def iterm(v):
    if isinstance(v, bool):
        return z3.IntVal(1 if v else 0)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, SInt):
        return v.t
    if isinstance(v, SBool):
        return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
    raise Unsupported("not an int: %r" % (v,))


def sterm(v):
    if isinstance(v, str):
        return z3.StringVal(str.__str__(v))
    if isinstance(v, SStr):
        return v.t
    if isinstance(v, Obj) and isinstance(v.prim, (str, SStr)):
        return sterm(v.prim)
    raise Unsupported("not a str: %r" % (v,))


def bterm(v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, SBool):
        return v.t
    raise Unsupported("not a bool: %r" % (v,))
