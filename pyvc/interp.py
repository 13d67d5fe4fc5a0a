"""Symbolic interpreter over the AST of the real functions.

Nothing of the code under proof is transcribed: function objects are imported from /repo and their bodies are located,
by code object, in the source files of /repo at run time.
"""
import ast
import copy
import os
import builtins
import functools
import inspect
import types

import z3

from .values import *
from .values import Heap
from .engine import Engine, CarriedRead

_SRC = {}


def _index(path):
    if path not in _SRC:
        with open(path) as f:
            text = f.read()
        tree = ast.parse(text)
        defs, lambdas, owner = {}, {}, {}

        def walk(node, clsname):
            for ch in ast.iter_child_nodes(node):
                if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    first = min([ch.lineno] + [d.lineno for d in ch.decorator_list])
                    defs[(first, ch.name)] = (ch, clsname)
                    walk(ch, clsname)
                elif isinstance(ch, ast.ClassDef):
                    walk(ch, ch.name)
                elif isinstance(ch, ast.Lambda):
                    lambdas.setdefault(ch.lineno, []).append((ch, clsname))
                    walk(ch, clsname)
                else:
                    walk(ch, clsname)
        walk(tree, None)
        _SRC[path] = (defs, lambdas)
    return _SRC[path]


def locate(f):
    code = f.__code__
    defs, lambdas = _index(code.co_filename)
    if f.__name__ == "<lambda>":
        c = lambdas.get(code.co_firstlineno, [])
        if len(c) != 1:
            raise Unsupported("ambiguous lambda at %s:%s" % (code.co_filename, code.co_firstlineno))
        return c[0]
    try:
        return defs[(code.co_firstlineno, code.co_name)]
    except KeyError:
        raise Unsupported("cannot locate source of %s" % f.__qualname__)


class Frame(object):
    __slots__ = ("env", "parent", "globals", "clsname", "cell_class", "emits", "name", "selfval", "nonlocals",
                 "globs", "handling")

    def __init__(self, parent, globals_, clsname, cell_class, name):
        self.env = {}
        self.parent = parent
        self.globals = globals_
        self.clsname = clsname
        self.cell_class = cell_class
        self.emits = None
        self.name = name
        self.selfval = None
        self.nonlocals = ()
        self.globs = ()
        self.handling = None

    def snapshot(self):
        f = Frame(self.parent.snapshot() if self.parent else None, self.globals, self.clsname, self.cell_class,
                  self.name)
        f.env = dict(self.env)
        f.emits, f.selfval, f.nonlocals, f.globs = self.emits, self.selfval, self.nonlocals, self.globs
        f.handling = self.handling
        return f

    def fn_frame(self):
        f = self
        while f.name == "<comp>" and f.parent is not None:
            f = f.parent
        return f


class _Return(object):
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class Kind(object):
    """An abstract class of references: cls gives isinstance/method lookup, fields are functions of (interp, ref)."""
    def __init__(self, name, cls=None, fields=None, methods=None, isinst=None, iterate=None, truth=None,
                 getitem=None, length=None, contains=None, eq=None, to_str=None):
        self.name = name
        self.sort = z3.DeclareSort(name)
        self.cls = cls
        self.fields = fields or {}
        self.methods = methods or {}
        self.isinst = isinst or {}
        self.iterate, self.truth, self.getitem, self.length = iterate, truth, getitem, length
        self.contains, self.eq, self.to_str = contains, eq, to_str


NOTFOUND = object()


def is_native(v):
    return not isinstance(v, (SInt, SReal, SBool, SStr, Heap, Ref, STuple, BoundMethod, BuiltinMethod, Closure,
                              SuperVal, Poison, Native, Opaque, Slice))


def deep_concrete(v, depth=0):
    """Can v be handed to native code? (converted by to_native)"""
    if depth > 12:
        return False
    if isinstance(v, (PList,)):
        return all(k == "i" and deep_concrete(x, depth + 1) for k, x in v.parts)
    if isinstance(v, IterVal):
        return all(k == "i" and deep_concrete(x, depth + 1) for k, x in v.parts)
    if isinstance(v, PDict):
        return v.default is None and all(deep_concrete(a, depth + 1) and deep_concrete(b, depth + 1)
                                         for a, b in v.entries)
    if isinstance(v, PSet):
        return all(deep_concrete(a, depth + 1) for a in v.items)
    if isinstance(v, tuple):
        return all(deep_concrete(a, depth + 1) for a in v)
    if isinstance(v, list):
        return all(deep_concrete(a, depth + 1) for a in v)
    if isinstance(v, dict):
        return all(deep_concrete(a, depth + 1) for a in v.values())
    return is_native(v)


def to_native(v):
    if isinstance(v, PList):
        return [to_native(x) for _, x in v.parts]
    if isinstance(v, IterVal):
        return [to_native(x) for _, x in v.parts]
    if isinstance(v, PDict):
        return {to_native(a): to_native(b) for a, b in v.entries}
    if isinstance(v, PSet):
        return {to_native(a) for a in v.items}
    if type(v) is tuple:
        return tuple(to_native(x) for x in v)
    return v


def from_native(v):
    """Mutable native results become interpreted containers."""
    if type(v) is list:
        return PList.of([from_native(x) for x in v])
    if type(v) is dict:
        return PDict([(k, from_native(x)) for k, x in v.items()])
    if type(v) is set:
        return PSet([from_native(x) for x in sorted(v, key=repr)])
    if type(v) is tuple:
        return tuple(from_native(x) for x in v)
    return v


class Interp(object):
    REPO = os.environ.get("PYVC_REPO", "/repo").rstrip("/") + "/"
    SPEC = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/"

    def __init__(self, engine):
        self.e = engine
        self.contracts = {}     # function object -> Contract-like with .apply(interp, args, kwargs)
        self.models = {}        # native callable -> handler(interp, args, kwargs)
        self.native_methods = {}  # (type, name) -> handler(interp, self, args, kwargs)
        self.class_models = {}  # class -> handler(interp, args, kwargs) on instantiation
        self.loop_specs = {}    # (function object, loop ordinal) -> handler
        self.active = []        # functions currently under verification (body is executed, not their contract)
        self.module_overrides = {}
        self.depth = 0
        self._assigned_cache = {}
        from . import builtin_models
        builtin_models.install(self)
        rdf_model.install(self)

    # ------------------------------------------------------------ exceptions
    def throw(self, cls, msg=""):
        raise Raise(Obj(cls, {}, prim=(msg,)))

    # ------------------------------------------------------------ function calls
    def call(self, f, args=(), kwargs=None):
        kwargs = kwargs or {}
        args = list(args)
        if isinstance(f, Native):
            return f.fn(self, args, kwargs)
        if isinstance(f, BoundMethod):
            return self.call(f.func, [f.self] + args, kwargs)
        if isinstance(f, BuiltinMethod):
            return self.builtin_method(f.self, f.name, args, kwargs)
        if isinstance(f, Closure):
            return self.call_closure(f, args, kwargs)
        if isinstance(f, Opaque):
            return Opaque(f.name + "()")
        if isinstance(f, Poison):
            raise CarriedRead("call of loop-carried value %s" % f.name)
        if isinstance(f, (staticmethod, classmethod)):
            return self.call(f.__func__, args, kwargs)
        try:
            handler = self.models.get(f)
        except TypeError:
            handler = None
        if handler is not None:
            return handler(self, args, kwargs)
        if isinstance(f, types.FunctionType):
            c = self.contracts.get(f)
            if c is not None and not (self.active and self.active[-1] is f):
                return c.apply(self, args, kwargs)
            fn = f.__code__.co_filename
            if fn.startswith(self.REPO) or fn.startswith(self.SPEC):
                return self.call_real(f, args, kwargs)
            return self.call_native(f, args, kwargs)
        if isinstance(f, types.MethodType):
            fn = f.__func__
            if isinstance(fn, types.FunctionType) and (
                    fn in self.contracts or fn in self.models
                    or fn.__code__.co_filename.startswith((self.REPO, self.SPEC))):
                return self.call(fn, [f.__self__] + args, kwargs)
            return self.call_native(f, args, kwargs)
        if isinstance(f, type):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, Obj):
            m = self.class_lookup(f.cls, "__call__")
            if m is not NOTFOUND:
                return self.call(self.bind(m, f, f.cls), args, kwargs)
        if isinstance(f, Ref):
            m = f.kind.methods.get("__call__")
            if m:
                return m(self, f, args, kwargs)
        if isinstance(f, functools.partial):
            kw = dict(f.keywords)
            kw.update(kwargs)
            return self.call(f.func, list(f.args) + args, kw)
        if is_native(f) and callable(f):
            return self.call_native(f, args, kwargs)
        if not callable(f):
            self.throw(TypeError, "not callable")
        raise Unsupported("call of %r" % (f,))

    SAFE_MODULES = ("builtins", "re", "math", "inspect", "string", "posixpath", "urllib.parse", "functools",
                    "operator", "rdflib", "typing", "_operator", "itertools", "collections", "_sre", "copy",
                    "genericpath", "_abc", "abc")

    def call_native(self, f, args, kwargs):
        mod = getattr(f, "__module__", None)
        owner = getattr(f, "__self__", None)
        if owner is not None and not isinstance(owner, types.ModuleType):
            for t in type(owner).__mro__:
                h = self.native_methods.get((t, getattr(f, "__name__", "")))
                if h is not None:
                    return h(self, owner, args, kwargs)
            if mod is None:
                mod = type(owner).__module__
        if all(deep_concrete(a) for a in args) and all(deep_concrete(a) for a in kwargs.values()):
            if mod is not None and mod.split(".")[0] in [m.split(".")[0] for m in self.SAFE_MODULES]:
                try:
                    return from_native(f(*[to_native(a) for a in args], **{k: to_native(v) for k, v in kwargs.items()}))
                except Exception as E:
                    raise Raise(Obj(type(E), {}, prim=tuple(str(a) for a in E.args)))
        raise Unsupported("native call %s.%s%r" % (mod, getattr(f, "__qualname__", f), tuple(args)))

    def call_real(self, f, args, kwargs):
        node, clsname = locate(f)
        if f.__code__.co_filename.startswith(self.REPO):
            self.e.inlined.add("%s.%s" % (f.__module__, f.__qualname__))
        cell_class = None
        env_parent = None
        if f.__closure__:
            parent = Frame(None, f.__globals__, clsname, None, "<closure>")
            for nm, cell in zip(f.__code__.co_freevars, f.__closure__):
                try:
                    if nm == "__class__":
                        cell_class = cell.cell_contents
                    else:
                        parent.env[nm] = cell.cell_contents
                except ValueError:
                    pass
            env_parent = parent
        clo = Closure(node, env_parent, f.__globals__, clsname, list(f.__defaults__ or ()),
                      dict(f.__kwdefaults__ or {}), f.__name__, cell_class)
        return self.call_closure(clo, args, kwargs, real=f)

    def call_closure(self, clo, args, kwargs, real=None):
        node = clo.node
        frame = Frame(clo.env, clo.globals, clo.clsname, clo.cell_class, clo.name)
        self.bind_args(node.args, clo, args, kwargs, frame)
        if node.args.args:
            frame.selfval = frame.env.get(node.args.args[0].arg)
        self.depth += 1
        if self.depth > 60:
            self.depth -= 1
            raise Unsupported("call depth exceeded in %s (recursion without a contract)" % clo.name)
        try:
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, frame)
            gen = _is_generator(node)
            if gen:
                frame.emits = PList()
            ctl = self.block(node.body, frame)
            if gen:
                return IterVal(frame.emits.parts)
            if isinstance(ctl, _Return):
                return ctl.v
            return None
        finally:
            self.depth -= 1

    def bind_args(self, a, clo, args, kwargs, frame):
        names = [x.arg for x in a.posonlyargs + a.args]
        env = frame.env
        args = list(args)
        kwargs = dict(kwargs)
        if any(isinstance(x, Star) for x in args[:len(names)]) or (a.vararg is None and any(isinstance(x, Star) for x in args)):
            raise Unsupported("call with a symbolic number of arguments")
        for i, nm in enumerate(names):
            if i < len(args):
                if nm in kwargs:
                    self.throw(TypeError, "multiple values for %s" % nm)
                env[nm] = args[i]
            elif nm in kwargs:
                env[nm] = kwargs.pop(nm)
            else:
                d = i - (len(names) - len(clo.defaults))
                if d >= 0:
                    env[nm] = self.default_value(clo.defaults[d])
                else:
                    self.throw(TypeError, "%s() missing argument %s" % (clo.name, nm))
        if len(args) > len(names):
            if a.vararg is None:
                self.throw(TypeError, "%s() takes %d positional arguments" % (clo.name, len(names)))
            env[a.vararg.arg] = self.mk_tuple([x.part if isinstance(x, Star) else ("i", x) for x in args[len(names):]])
        elif a.vararg is not None:
            env[a.vararg.arg] = ()
        for k in a.kwonlyargs:
            if k.arg in kwargs:
                env[k.arg] = kwargs.pop(k.arg)
            elif k.arg in clo.kwdefaults:
                env[k.arg] = self.default_value(clo.kwdefaults[k.arg])
            else:
                self.throw(TypeError, "missing keyword argument %s" % k.arg)
        if a.kwarg is not None:
            env[a.kwarg.arg] = PDict(list(kwargs.items()))
        elif kwargs:
            self.throw(TypeError, "%s() got an unexpected keyword argument %s" % (clo.name, list(kwargs)[0]))

    def default_value(self, v):
        return v

    # ------------------------------------------------------------ classes and attributes
    def class_lookup(self, cls, name, after=None):
        mro = cls.__mro__
        if after is not None:
            mro = mro[mro.index(after) + 1:]
        for c in mro:
            if name in c.__dict__:
                return c.__dict__[name]
        return NOTFOUND

    def class_lookup_owner(self, cls, name, after=None):
        mro = cls.__mro__
        if after is not None:
            mro = mro[mro.index(after) + 1:]
        for c in mro:
            if name in c.__dict__:
                return c
        return None

    def bind(self, m, obj, cls):
        """Descriptor protocol for attribute m found on class cls and accessed through obj."""
        if isinstance(m, property):
            if m.fget is None:
                self.throw(AttributeError, "unreadable")
            return self.call(m.fget, [obj])
        if isinstance(m, staticmethod):
            return m.__func__
        if isinstance(m, classmethod):
            return BoundMethod(m.__func__, cls)
        if isinstance(m, (types.FunctionType, Closure, Native)):
            return BoundMethod(m, obj)
        if type(m).__name__ == "_tuplegetter":
            idx = m.__reduce__()[1][0]
            return self.getitem(obj, idx)
        if isinstance(m, (types.WrapperDescriptorType, types.MethodDescriptorType, types.BuiltinFunctionType)):
            return BuiltinMethod(m.__name__, obj)
        if isinstance(m, functools.cached_property):
            return self.call(m.func, [obj])
        return m

    def getattr(self, o, name, default=NOTFOUND):
        try:
            return self._getattr(o, name)
        except Raise as r:
            if default is not NOTFOUND and issubclass(r.exc.cls, AttributeError):
                return default
            raise

    def _getattr(self, o, name):
        if isinstance(o, Obj):
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                return PDict(list(o.attrs.items()))
            m = self.class_lookup(o.cls, name)
            if m is not NOTFOUND and isinstance(m, property):
                return self.bind(m, o, o.cls)
            if name in o.attrs:
                return o.attrs[name]
            if m is not NOTFOUND:
                return self.bind(m, o, o.cls)
            if issubclass(o.cls, BaseException) and name == "args":
                return o.prim
            g = self.class_lookup(o.cls, "__getattr__")
            if g is not NOTFOUND:
                return self.call(g, [o, name])
            if o.prim is not None and not issubclass(o.cls, BaseException):
                return self._getattr(o.prim, name)
            self.throw(AttributeError, "%s has no attribute %s" % (o.cls.__name__, name))
        if isinstance(o, Ref):
            k = o.kind
            ov = self.e.state.get(("field", k.name, name))
            if ov is not None:
                return ov(self, o)
            if name in k.fields:
                return k.fields[name](self, o)
            if name in k.methods:
                h = k.methods[name]
                return Native(lambda it, a, kw: h(it, o, a, kw), name)
            if k.cls is not None:
                if name == "__class__":
                    return k.cls
                m = self.class_lookup(k.cls, name)
                if m is not NOTFOUND:
                    return self.bind(m, o, k.cls)
            if k.fields.get("*") is None:
                self.throw(AttributeError, "%s has no attribute %s" % (k.name, name))
            return k.fields["*"](self, o, name)
        if isinstance(o, SuperVal):
            m = self.class_lookup(o.owner, name, after=o.cls)
            if m is NOTFOUND:
                if isinstance(o.self, Obj) and o.self.prim is not None:
                    return BuiltinMethod(name, o.self)
                self.throw(AttributeError, "super has no %s" % name)
            return self.bind(m, o.self, o.owner)
        if isinstance(o, type):
            if name == "__name__":
                return o.__name__
            if name == "__mro__":
                return o.__mro__
            m = self.class_lookup(o, name)
            if m is NOTFOUND:
                meta = self.class_lookup(type(o), name)
                if meta is not NOTFOUND:
                    return BuiltinMethod(name, o)
                try:
                    return getattr(o, name)
                except AttributeError:
                    pass
                self.throw(AttributeError, "type %s has no attribute %s" % (o.__name__, name))
            if isinstance(m, staticmethod):
                return m.__func__
            if isinstance(m, classmethod):
                return BoundMethod(m.__func__, o)
            return m
        if isinstance(o, types.ModuleType):
            if (o.__name__, name) in self.module_overrides:
                return self.module_overrides[(o.__name__, name)]
            try:
                return getattr(o, name)
            except AttributeError:
                self.throw(AttributeError, name)
        if isinstance(o, Opaque):
            return Opaque(o.name + "." + name)
        if isinstance(o, Poison):
            raise CarriedRead("read of loop-carried value %s" % o.name)
        if isinstance(o, (str, SStr, PList, PDict, PSet, STuple, IterVal, tuple, int, SInt, bool, SBool)) \
                and (not is_native(o) or type(o) in (str, tuple, int, bool)):
            if name == "__class__":
                return self.type_of(o)
            t = self.type_of(o)
            if hasattr(t, name):
                return BuiltinMethod(name, o)
            self.throw(AttributeError, "%s has no attribute %s" % (t.__name__, name))
        if isinstance(o, (BoundMethod, Closure, Native)):
            if name == "__name__":
                return getattr(o, "name", "f")
            if isinstance(o, BoundMethod) and name == "__func__":
                return o.func
            if isinstance(o, BoundMethod) and name == "__self__":
                return o.self
            self.throw(AttributeError, name)
        if o is None:
            if hasattr(None, name):
                return BuiltinMethod(name, o)
            self.throw(AttributeError, "'NoneType' object has no attribute '%s'" % name)
        # native instance
        cls = type(o)
        m = self.class_lookup(cls, name)
        if isinstance(m, property) and m.fget is not None and isinstance(m.fget, types.FunctionType) \
                and m.fget.__code__.co_filename.startswith(self.REPO):
            return self.call(m.fget, [o])
        try:
            return getattr(o, name)
        except AttributeError as E:
            self.throw(AttributeError, str(E))

    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            m = self.class_lookup(o.cls, name)
            if isinstance(m, property):
                if m.fset is None:
                    self.throw(AttributeError, "can't set attribute %s" % name)
                self.call(m.fset, [o, v])
                return
            new = dict(o.attrs)
            new[name] = v
            self.e.jset(o, "attrs", new)
            return
        if isinstance(o, Ref):
            h = o.kind.fields.get("set:" + name)
            if h is not None:
                h(self, o, v)
                return
            if o.kind.cls is not None:
                m = self.class_lookup(o.kind.cls, name)
                if isinstance(m, property) and m.fset is not None:
                    self.call(m.fset, [o, v])
                    return
        if isinstance(o, Opaque):
            return
        raise Unsupported("setattr %s on %r" % (name, o))

    def instantiate(self, cls, args, kwargs):
        for c in cls.__mro__:
            if c in self.class_models:
                return self.class_models[c](self, cls, args, kwargs)
        b = self.builtin_type(cls, args, kwargs)
        if b is not NOTFOUND:
            return b
        if issubclass(cls, BaseException):
            o = Obj(cls, {}, prim=tuple(args))
            init = self.class_lookup(cls, "__init__")
            if isinstance(init, types.FunctionType) and init.__code__.co_filename.startswith(self.REPO):
                self.call(init, [o] + list(args), kwargs)
            return o
        new = self.class_lookup(cls, "__new__")
        f = new.__func__ if isinstance(new, staticmethod) else new
        if isinstance(f, types.FunctionType) and (f in self.contracts or f in self.models or
                                                  f.__code__.co_filename.startswith((self.REPO, self.SPEC))):
            o = self.call(f, [cls] + list(args), kwargs)
        elif f is object.__new__:
            if not self._is_repo_class(cls):
                if all(deep_concrete(a) for a in args) and all(deep_concrete(a) for a in kwargs.values()):
                    return self.call_native_class(cls, args, kwargs)
                raise Unsupported("instantiation of %s" % cls)
            o = Obj(cls)
        elif self._is_repo_class(cls) and issubclass(cls, (dict, list)):
            o = Obj(cls, prim=PDict() if issubclass(cls, dict) else PList())
        elif self._is_repo_class(cls):
            o = self.native_new(f, cls, args, kwargs)
        else:
            if all(deep_concrete(a) for a in args) and all(deep_concrete(a) for a in kwargs.values()):
                return self.call_native_class(cls, args, kwargs)
            raise Unsupported("instantiation of %s" % cls)
        if isinstance(o, Obj) and issubclass(o.cls, cls):
            init = self.class_lookup(o.cls, "__init__")
            if isinstance(init, types.FunctionType):
                self.call(init, [o] + list(args), kwargs)
        return o

    def call_native_class(self, cls, args, kwargs):
        if (cls.__module__ or "").split(".")[0] not in [m.split(".")[0] for m in self.SAFE_MODULES]:
            raise Unsupported("instantiation of %s" % cls)
        try:
            return from_native(cls(*[to_native(a) for a in args], **{k: to_native(v) for k, v in kwargs.items()}))
        except Exception as E:
            raise Raise(Obj(type(E), {}, prim=tuple(str(a) for a in E.args)))

    def _is_repo_class(self, cls):
        m = cls.__module__ or ""
        return m.startswith("MyCapytain") or m.startswith("contracts") or m.startswith("pyvc")

    def native_new(self, f, cls, args, kwargs):
        owner = getattr(f, "__self__", None)
        if owner is str:
            return Obj(cls, prim=self.to_str(args[0]) if args else "")
        if owner is tuple:
            v = args[0] if args else ()
            return Obj(cls, prim=self.mk_tuple(self.iterate(v)))
        raise Unsupported("%s.__new__ for %s" % (owner, cls))

    def mk_tuple(self, parts):
        if all(k == "i" for k, _ in parts):
            return tuple(v for _, v in parts)
        return STuple(parts)

    def type_of(self, v):
        if isinstance(v, Obj):
            return v.cls
        if isinstance(v, Ref):
            if v.kind.cls is None:
                raise Unsupported("type() of abstract %s" % v.kind.name)
            return v.kind.cls
        if isinstance(v, (SStr,)):
            return str
        if isinstance(v, SInt):
            return int
        if isinstance(v, SBool):
            return bool
        if isinstance(v, SReal):
            return float
        if isinstance(v, PList):
            return list
        if isinstance(v, PDict):
            return dict
        if isinstance(v, PSet):
            return set
        if isinstance(v, STuple):
            return tuple
        if isinstance(v, IterVal):
            return types.GeneratorType
        if isinstance(v, (Closure, Native)):
            return types.FunctionType
        if isinstance(v, BoundMethod):
            return types.MethodType
        if isinstance(v, Poison):
            raise CarriedRead("type of loop-carried value")
        if isinstance(v, Opaque):
            raise Unsupported("type of opaque %s" % v.name)
        return type(v)

    def isinstance(self, v, classes):
        if isinstance(classes, tuple):
            rs = [self.isinstance(v, c) for c in classes]
            if any(r is True for r in rs):
                return True
            sy = [r for r in rs if isinstance(r, SBool)]
            return mkbool(z3.Or(*[r.t for r in sy])) if sy else False
        if classes is getattr(classes, "__origin__", None):
            raise Unsupported("isinstance typing")
        if isinstance(v, Ref):
            if classes in v.kind.isinst:
                r = v.kind.isinst[classes]
                return r(self, v) if callable(r) else r
            if v.kind.cls is None:
                return classes is object
            return issubclass(v.kind.cls, classes)
        if isinstance(v, IterVal):
            import collections.abc
            return classes in (object, types.GeneratorType, collections.abc.Iterator, collections.abc.Iterable)
        if not isinstance(classes, type):
            raise Unsupported("isinstance against %r" % (classes,))
        if isinstance(v, PDict):
            import collections
            if v.default is not None and classes is collections.defaultdict:
                return True
        return issubclass(self.type_of(v), classes)

    # ------------------------------------------------------------ truth, equality, conversions
    def truth(self, v):
        """Python truthiness as a Python bool; forks."""
        if isinstance(v, bool) or v is None:
            return bool(v)
        if isinstance(v, SBool):
            return self.e.branch(v.t)
        if isinstance(v, SInt):
            return self.e.branch(v.t != 0)
        if isinstance(v, SStr):
            if any(isinstance(p, str) and p for p in v.pieces):
                return True
            return self.e.branch(z3.Or(*[z3.Length(p) > 0 for p in v.pieces]))
        if isinstance(v, (PList, STuple)):
            self.check_poison(v)
            n = self.e.seq_len(v.parts)
            return self.e.branch(iterm(n) != 0)
        if isinstance(v, PDict):
            return len(v.entries) > 0
        if isinstance(v, PSet):
            return len(v.items) > 0
        if isinstance(v, Obj):
            m = self.class_lookup(v.cls, "__bool__")
            if m is not NOTFOUND and isinstance(m, types.FunctionType):
                return self.truth(self.call(m, [v]))
            m = self.class_lookup(v.cls, "__len__")
            if m is not NOTFOUND and isinstance(m, (types.FunctionType, Closure)):
                return self.truth(self.call(m, [v]))
            if v.prim is not None and not issubclass(v.cls, BaseException):
                if v.attrs.get("datatype") is not None and v.cls.__name__ == "Literal":
                    from . import rdf_model
                    return self.e.branch(rdf_model.truth_of(rdf_model.encode(self, v)))
                return self.truth(v.prim)
            return True
        if isinstance(v, Ref):
            if v.kind.truth is not None:
                return self.truth(v.kind.truth(self, v))
            if v.kind.cls is not None:
                for nm in ("__bool__", "__len__"):
                    m = self.class_lookup(v.kind.cls, nm)
                    if isinstance(m, types.FunctionType):
                        return self.truth(self.call(m, [v]))
            return True
        if isinstance(v, Poison):
            raise CarriedRead("truth of loop-carried value %s" % v.name)
        if isinstance(v, Opaque):
            raise Unsupported("truth of opaque %s" % v.name)
        if isinstance(v, (Closure, BoundMethod, BuiltinMethod, Native, IterVal)):
            return True
        if isinstance(v, SReal):
            return self.e.branch(v.t != 0)
        return bool(v)

    def check_poison(self, v):
        if getattr(v, "poison", False):
            raise CarriedRead("loop body reads an accumulator it also extends")

    def eq(self, a, b):
        """a == b; the result is a value (bool, SBool, or whatever __eq__ gives)."""
        if a is b and not isinstance(a, (Obj, Ref, Poison)):
            return True
        for x in (a, b):
            if isinstance(x, Poison):
                raise CarriedRead("comparison of loop-carried value %s" % x.name)
        sa, sb = self._user_eq(a), self._user_eq(b)
        if sa is not None or sb is not None:
            first, second = (sa, a, b), (sb, b, a)
            if sb is not None and isinstance(a, Obj) and isinstance(b, Obj) and b.cls is not a.cls \
                    and issubclass(b.cls, a.cls) and sb is not sa:
                first, second = second, first
            for fn, x, y in (first, second):
                if fn is not None:
                    r = self.call(fn, [x, y])
                    if r is not NotImplemented:
                        return r
            if a is b:
                return True
        return self.raw_eq(a, b)

    def _user_eq(self, a):
        if rdf_model.is_term(a):
            return None
        cls = a.cls if isinstance(a, Obj) else (a.kind.cls if isinstance(a, Ref) and a.kind.eq is None else None)
        if cls is None:
            return None
        m = self.class_lookup(cls, "__eq__")
        if isinstance(m, types.FunctionType):
            return m
        return None

    def raw_eq(self, a, b):
        """== of builtin types (identity for plain objects)."""
        if rdf_model.is_term(a) or rdf_model.is_term(b):
            return rdf_model.term_eq(self, a, b)
        if isinstance(a, Ref) or isinstance(b, Ref):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Ref) and x.kind.eq is not None:
                    return x.kind.eq(self, x, y)
            if isinstance(a, Ref) and isinstance(b, Ref):
                if a.t.sort() != b.t.sort():
                    return False
                return mkbool(a.t == b.t)
            return False
        pa = a.prim if isinstance(a, Obj) and not issubclass(a.cls, BaseException) else a
        pb = b.prim if isinstance(b, Obj) and not issubclass(b.cls, BaseException) else b
        if isinstance(a, Obj) and a.prim is None or isinstance(b, Obj) and b.prim is None:
            return a is b
        if isinstance(pa, (str, SStr)) and isinstance(pb, (str, SStr)):
            if isinstance(pa, str) and isinstance(pb, str):
                return pa == pb
            for x in (pa, pb):
                if isinstance(x, str) and type(x) is not str:
                    return False  # rdflib identifiers differ from plain strings
            return self.e.str_eq(pa, pb)
        if isinstance(pa, (bool, SBool, int, SInt)) and isinstance(pb, (bool, SBool, int, SInt)):
            if isinstance(pa, (bool, SBool)) and isinstance(pb, (bool, SBool)):
                return mkbool(bterm(pa) == bterm(pb))
            return mkbool(iterm(pa) == iterm(pb))
        if isinstance(pa, tuple) and isinstance(pb, tuple) and (type(pa) is tuple or is_native(pa)):
            if len(pa) != len(pb):
                return False
            return self.conj([lambda x=x, y=y: self.eq(x, y) for x, y in zip(pa, pb)])
        if isinstance(pa, (PList, STuple, tuple)) and isinstance(pb, (PList, STuple, tuple)):
            if isinstance(pa, PList) != isinstance(pb, PList):
                return False
            return self.seq_eq(self.parts_of(pa), self.parts_of(pb))
        if isinstance(pa, PDict) and isinstance(pb, (PDict, dict)) or isinstance(pb, PDict) and isinstance(pa, dict):
            ea = pa.entries if isinstance(pa, PDict) else list(pa.items())
            eb = pb.entries if isinstance(pb, PDict) else list(pb.items())
            if len(ea) != len(eb):
                return False
            tests = []
            for k, v in ea:
                def one(k=k, v=v):
                    for k2, v2 in eb:
                        if self.truth(self.eq(k, k2)):
                            return self.eq(v, v2)
                    return False
                tests.append(one)
            return self.conj(tests)
        if isinstance(pa, PSet) and isinstance(pb, PSet):
            if len(pa.items) != len(pb.items):
                return False
            return self.conj([lambda x=x: self.set_has(pb, x) for x in pa.items])
        if isinstance(pa, (Closure, BoundMethod, BuiltinMethod)) or isinstance(pb, (Closure, BoundMethod, BuiltinMethod)):
            if isinstance(pa, BoundMethod) and isinstance(pb, BoundMethod):
                return pa.func is pb.func and pa.self is pb.self
            return pa is pb
        if isinstance(pa, Opaque) or isinstance(pb, Opaque):
            raise Unsupported("comparison of an opaque value")
        if isinstance(pa, SReal) or isinstance(pb, SReal):
            return mkbool(self.real(pa) == self.real(pb))
        if is_native(pa) and is_native(pb):
            if isinstance(pa, Heap) or isinstance(pb, Heap):
                return pa is pb
            return pa == pb
        return False

    def real(self, v):
        if isinstance(v, SReal):
            return v.t
        if isinstance(v, float):
            return z3.RealVal(repr(v))
        return z3.ToReal(iterm(v))

    def set_has(self, s, x):
        for y in s.items:
            if self.truth(self.eq(x, y)):
                return True
        return False

    def conj(self, tests):
        """Conjunction of lazily computed equalities, kept as one z3 term when all are plain booleans."""
        ts = []
        for t in tests:
            r = t()
            if r is False:
                return False
            if r is True:
                continue
            if isinstance(r, SBool):
                ts.append(r.t)
                continue
            if not self.truth(r):
                return False
        if not ts:
            return True
        return mkbool(z3.And(*ts))

    def seq_eq(self, p, q):
        """Equality of two sequences given as parts."""
        if all(k == "i" for k, _ in p) and all(k == "i" for k, _ in q):
            if len(p) != len(q):
                return False
            return self.conj([lambda x=x, y=y: self.eq(x[1], y[1]) for x, y in zip(p, q)])
        if self.e.same_parts(p, q):
            return True
        # Decide on a shared Boolean, linked to the lengths; both outcomes constrain the elements.
        for m in self.e.memo:
            if m[0] == "seqeq" and ((self.e.same_parts(m[1], p) and self.e.same_parts(m[2], q))
                                    or (self.e.same_parts(m[1], q) and self.e.same_parts(m[2], p))):
                return SBool(m[3])
        lp, lq = iterm(self.e.seq_len(p)), iterm(self.e.seq_len(q))
        if not self.e.branch(lp == lq):
            return False
        if self.e.entails(lp == 0):
            return True
        b = z3.Bool(self.e.fresh_name("seqeq"))
        self.e.memo.append(("seqeq", list(p), list(q), b))
        if self.e.branch(b):
            # universally equal at every index
            def runner(j):
                x, y = self.index_parts(p, j), self.index_parts(q, j)
                if not self.truth(self.eq(x, y)):
                    raise Infeasible()
            self.e.add_universal(lp, runner, None)
            return True
        w = self.e.fresh_int("neq")
        self.e.assume(z3.And(w >= 0, w < lp))
        if self.truth(self.eq(self.index_parts(p, w), self.index_parts(q, w))):
            raise Infeasible()
        self.e.add_witness(w, None)
        return False

    def to_str(self, v):
        """str(v)"""
        if isinstance(v, str):
            if type(v) is str:
                return v
            return str(v)
        if isinstance(v, SStr):
            return v
        if isinstance(v, SInt):
            if self.e.entails(v.t >= 0) or self.e.branch(v.t >= 0):
                t = z3.IntToStr(v.t)
                return self.e.atom(t, ("int",))
            t = z3.IntToStr(-v.t)
            return mkstr(("-", self.e.atom(t, ("int",))))
        if isinstance(v, SBool):
            return "True" if self.e.branch(v.t) else "False"
        if rdf_model.is_term(v):
            return rdf_model.text(v)
        if isinstance(v, Obj):
            m = self.class_lookup(v.cls, "__str__")
            if isinstance(m, types.FunctionType):
                return self.call(m, [v])
            if isinstance(v.prim, (str, SStr)) and issubclass(v.cls, str):
                return v.prim
            m = self.class_lookup(v.cls, "__repr__")
            if isinstance(m, types.FunctionType):
                return self.call(m, [v])
            return SStr((self.e.fresh_str("repr"),))
        if isinstance(v, Ref):
            if v.kind.to_str is not None:
                return v.kind.to_str(self, v)
            if v.kind.cls is not None:
                m = self.class_lookup(v.kind.cls, "__str__")
                if isinstance(m, types.FunctionType):
                    return self.call(m, [v])
            f = self.e.uf("str_" + v.kind.name, v.t.sort(), z3.StringSort())
            return SStr((f(v.t),))
        if isinstance(v, Poison):
            raise CarriedRead("str of loop-carried value")
        if deep_concrete(v) and not isinstance(v, (PSet,)):
            try:
                return str(to_native(v))
            except Exception:
                pass
        return SStr((self.e.fresh_str("str"),))

    # ------------------------------------------------------------ sequences
    def parts_of(self, v):
        if isinstance(v, (PList, STuple)):
            self.check_poison(v)
            return v.parts
        if isinstance(v, (tuple, list)):
            return [("i", x) for x in v]
        raise Unsupported("parts of %r" % (v,))

    def iterate(self, v):
        """The elements of v as parts."""
        if isinstance(v, (PList, STuple)):
            self.check_poison(v)
            return list(v.parts)
        if isinstance(v, IterVal):
            parts = list(v.parts)
            self.e.jset(v, "parts", [])
            return parts
        if isinstance(v, str):
            return [("i", c) for c in v]
        if isinstance(v, PDict):
            if v.poison:
                raise CarriedRead("loop body reads a dictionary it also writes")
            return [("i", k) for k, _ in v.entries]
        if isinstance(v, PSet):
            return [("i", x) for x in v.items]
        if isinstance(v, Obj):
            m = self.class_lookup(v.cls, "__iter__")
            if isinstance(m, (types.FunctionType, Closure)):
                return self.iterate(self.call(m, [v]))
            if v.prim is not None:
                return self.iterate(v.prim)
            m = self.class_lookup(v.cls, "__getitem__")
            self.throw(TypeError, "%s is not iterable" % v.cls.__name__)
        if isinstance(v, Ref):
            if v.kind.iterate is not None:
                return v.kind.iterate(self, v)
            if v.kind.cls is not None:
                m = self.class_lookup(v.kind.cls, "__iter__")
                if isinstance(m, types.FunctionType):
                    return self.iterate(self.call(m, [v]))
            raise Unsupported("iteration over abstract %s" % v.kind.name)
        if isinstance(v, Poison):
            raise CarriedRead("iteration over loop-carried value %s" % v.name)
        if isinstance(v, SStr):
            raise Unsupported("iteration over the characters of a symbolic string")
        if isinstance(v, (Opaque,)):
            raise Unsupported("iteration over opaque %s" % v.name)
        if v is None or isinstance(v, (int, SInt, bool, SBool, type, float)):
            self.throw(TypeError, "object is not iterable")
        if is_native(v):
            try:
                return [("i", from_native(x) if type(x) is tuple else x) for x in v]
            except TypeError as E:
                self.throw(TypeError, str(E))
        self.throw(TypeError, "not iterable")

    def index_parts(self, parts, i):
        """Element at index i (0 <= i < len is known)."""
        it = i if not isinstance(i, int) else z3.IntVal(i)
        off = z3.IntVal(0)
        parts = list(parts)
        for idx, (k, v) in enumerate(parts):
            last = idx == len(parts) - 1
            if k == "i":
                n = z3.IntVal(1)
            elif k == "b":
                n = v.n if not isinstance(v.n, int) else z3.IntVal(v.n)
            elif self.e.entails(it == off):
                from .builtin_models import take_first
                r = take_first(self, parts[idx:])
                if r is None:
                    raise Infeasible()
                return r[0]
            elif self.e.entails(it == off + iterm(self.e.seq_len(parts[idx:])) - 1):
                from .builtin_models import take_last
                r = take_last(self, parts[idx:])
                if r is None:
                    raise Infeasible()
                return r[0]
            else:
                raise Unsupported("index into a filtered symbolic sequence")
            rel = z3.simplify(it - off)
            if last or self.e.branch(rel < n):
                if k == "i":
                    return v
                return v.at(rel)
            off = z3.simplify(off + n)
        raise Infeasible()

    def slice_parts(self, parts, lo, hi):
        """parts[lo:hi] with 0 <= lo <= hi <= len known (terms or ints)."""
        parts = list(parts)
        lo_t = lo if not isinstance(lo, int) else z3.IntVal(lo)
        hi_t = hi if not isinstance(hi, int) else z3.IntVal(hi)
        out = []
        off = z3.IntVal(0)
        for k, v in parts:
            if k == "i":
                n = z3.IntVal(1)
            elif k == "b":
                n = v.n if not isinstance(v.n, int) else z3.IntVal(v.n)
            else:
                if self.e.entails(z3.And(lo_t <= off, hi_t >= off + self.e.flat_len(v))):
                    out.append((k, v))
                    off = z3.simplify(off + self.e.flat_len(v))
                    continue
                raise Unsupported("slice of a filtered symbolic sequence")
            end = z3.simplify(off + n)
            a = z3.simplify(z3.If(lo_t > off, z3.If(lo_t < end, lo_t, end), off) - off)
            b = z3.simplify(z3.If(hi_t < end, z3.If(hi_t > off, hi_t, off), end) - off)
            # a, b relative bounds; empty when b <= a
            a, b = self.norm(a), self.norm(b)
            if k == "i":
                if self.e.branch(z3.And(a == 0, b == 1)):
                    out.append((k, v))
            else:
                if self.e.entails(a == 0) and self.e.entails(b == n):
                    out.append((k, v))
                elif self.e.branch(b > a):
                    out.append(("b", self.e.slice_base(v, self.resolve_if(a), self.resolve_if(b))))
            off = end
        return out

    def norm(self, t):
        return z3.simplify(t)

    def resolve_if(self, t):
        """Fork on the conditions of If-terms so that the result is If-free."""
        t = z3.simplify(t)
        while True:
            cond = _find_ite(t)
            if cond is None:
                return t
            v = self.e.branch(cond)
            t = z3.simplify(z3.substitute(t, (cond, z3.BoolVal(v))))

    def clip_index(self, i, n, default):
        """Python slice bound normalisation to [0, n]."""
        if i is None:
            return default
        if isinstance(i, Obj) or not isinstance(i, (int, SInt, bool, SBool)):
            self.throw(TypeError, "slice indices must be integers")
        it = iterm(i)
        nt = iterm(n)
        t = z3.If(it < 0, z3.If(it + nt < 0, z3.IntVal(0), it + nt), z3.If(it > nt, nt, it))
        return self.resolve_if(t)

    def getitem(self, o, i):
        if isinstance(o, Obj):
            m = self.class_lookup(o.cls, "__getitem__")
            if isinstance(m, (types.FunctionType, Closure)):
                return self.call(m, [o, i])
            if o.prim is not None:
                return self.getitem_prim(o.prim, i, o)
            self.throw(TypeError, "not subscriptable")
        if isinstance(o, Ref):
            if o.kind.getitem is not None:
                return o.kind.getitem(self, o, i)
            if o.kind.cls is not None:
                m = self.class_lookup(o.kind.cls, "__getitem__")
                if isinstance(m, types.FunctionType):
                    return self.call(m, [o, i])
            raise Unsupported("subscript of abstract %s" % o.kind.name)
        return self.getitem_prim(o, i, o)

    def getitem_prim(self, o, i, owner):
        if isinstance(o, Poison):
            raise CarriedRead("subscript of loop-carried value %s" % o.name)
        if isinstance(o, Opaque):
            return Opaque(o.name + "[]")
        if isinstance(o, PDict):
            if o.poison:
                raise CarriedRead("loop body reads a dictionary it also writes")
            for k, v in reversed(o.entries):
                if self.truth(self.eq(k, i)):
                    return v
            if isinstance(owner, Obj):
                miss = self.class_lookup(owner.cls, "__missing__")
                if isinstance(miss, types.FunctionType):
                    return self.call(miss, [owner, i])
            if o.default is not None:
                v = self.call(o.default, [])
                self.dict_set(o, i, v)
                return v
            self.throw(KeyError, i)
        if isinstance(o, dict):
            if deep_concrete(i):
                try:
                    return o[to_native(i)]
                except KeyError:
                    self.throw(KeyError, i)
            for k, v in o.items():
                if self.truth(self.eq(k, i)):
                    return v
            self.throw(KeyError, i)
        if isinstance(o, (PList, STuple, tuple, list)):
            parts = self.parts_of(o)
            if isinstance(i, Slice):
                return self.slice_seq(o, parts, i)
            if isinstance(i, bool):
                i = int(i)
            if not isinstance(i, (int, SInt)):
                self.throw(TypeError, "indices must be integers")
            if isinstance(i, int) and all(k == "i" for k, _ in parts):
                if -len(parts) <= i < len(parts):
                    return parts[i][1]
                self.throw(IndexError, "index out of range")
            n = iterm(self.e.seq_len(parts))
            it = iterm(i)
            if self.e.branch(it < 0):
                it = z3.simplify(it + n)
                if self.e.branch(it < 0):
                    self.throw(IndexError, "index out of range")
            if not self.e.branch(it < n):
                self.throw(IndexError, "index out of range")
            # fast path: literal positive index within leading items
            return self.index_parts(parts, z3.simplify(it))
        if isinstance(o, (str, SStr)):
            return self.str_getitem(o, i)
        if isinstance(o, (types.GeneratorType, IterVal)):
            self.throw(TypeError, "generator is not subscriptable")
        if o is None or isinstance(o, (int, SInt, SBool)):
            self.throw(TypeError, "object is not subscriptable")
        if is_native(o) and deep_concrete(i):
            h = self.native_methods.get((type(o), "__getitem__"))
            if h:
                return h(self, o, [i], {})
            try:
                return from_native(o[to_native(i)])
            except Exception as E:
                raise Raise(Obj(type(E), {}, prim=tuple(str(a) for a in E.args)))
        raise Unsupported("subscript of %r" % (o,))

    def slice_seq(self, o, parts, sl):
        step = sl.step
        mk = (lambda ps: PList(ps)) if isinstance(o, (PList, list)) else self.mk_tuple
        if all(k == "i" for k, _ in parts) and all(x is None or isinstance(x, int) for x in (sl.lo, sl.hi, step)):
            return mk(parts[slice(sl.lo, sl.hi, step)])
        if step is not None and step != 1:
            if step == -1 and sl.lo is None and sl.hi is None:
                return mk(self.reverse_parts(parts))
            raise Unsupported("slice with a step")
        n = self.e.seq_len(parts)
        lo = self.clip_index(sl.lo, n, z3.IntVal(0))
        hi = self.clip_index(sl.hi, n, iterm(n))
        if self.e.branch(hi <= lo):
            return mk([])
        return mk(self.slice_parts(parts, lo, hi))

    def reverse_parts(self, parts):
        out = []
        for k, v in reversed(list(parts)):
            if k == "i":
                out.append((k, v))
            elif k == "b":
                n = v.n if not isinstance(v.n, int) else z3.IntVal(v.n)
                out.append(("b", Base(n, lambda i, v=v, n=n: v.at(z3.simplify(n - 1 - i)),
                                      ("rev", v.ident) if v.ident else None, v.elem)))
            else:
                n = v.n if not isinstance(v.n, int) else z3.IntVal(v.n)
                out.append(("f", Flat(n, lambda i, v=v, n=n: self.reverse_parts(v.emit(z3.simplify(n - 1 - i))))))
        return out

    def str_getitem(self, o, i):
        if isinstance(o, str) and (isinstance(i, int) or isinstance(i, Slice) and
                                   all(x is None or isinstance(x, int) for x in (i.lo, i.hi, i.step))):
            try:
                return o[slice(i.lo, i.hi, i.step)] if isinstance(i, Slice) else o[i]
            except IndexError:
                self.throw(IndexError, "string index out of range")
        t = sterm(o)
        n = z3.Length(t)
        if isinstance(i, Slice):
            if i.step not in (None, 1):
                raise Unsupported("string slice with a step")
            r = self._rope_slice(o, i)
            if r is not None:
                return r
            cut = self._rope_cut(o, i)
            if cut is not None:
                return cut
            lo = self.clip_index(i.lo, SInt(n), z3.IntVal(0))
            hi = self.clip_index(i.hi, SInt(n), n)
            if self.e.branch(hi <= lo):
                return ""
            sub = z3.SubString(t, lo, hi - lo)
            return self.e.atom(sub, ("sub", o))
        it = iterm(i)
        if self.e.branch(it < 0):
            it = it + n
            if self.e.branch(it < 0):
                self.throw(IndexError, "string index out of range")
        if not self.e.branch(it < n):
            self.throw(IndexError, "string index out of range")
        return self.e.atom(z3.SubString(t, it, 1), ("sub", o))

    def _rope_cut(self, o, sl):
        """Slices at positions that fall inside literal pieces or at piece boundaries."""
        pieces = list(o.pieces) if isinstance(o, SStr) else [o]
        whole = pieces

        def cut(pieces, idx):
            off = z3.IntVal(0)
            for k, p in enumerate(pieces):
                d = z3.simplify(idx - off)
                if z3.is_int_value(d):
                    d = d.as_long()
                    if d == 0:
                        return pieces[:k], pieces[k:]
                    if isinstance(p, str) and 0 < d <= len(p):
                        return pieces[:k] + [p[:d]], [p[d:]] + pieces[k + 1:]
                off = off + (len(p) if isinstance(p, str) else z3.Length(p))
            d = z3.simplify(idx - off)
            if z3.is_int_value(d) and d.as_long() == 0:
                return pieces, []
            return None
        if sl.hi is not None:
            if not isinstance(sl.hi, (int, SInt)):
                return None
            r = cut(pieces, iterm(sl.hi))
            if r is None:
                return None
            pieces = r[0]
        if sl.lo is not None:
            if not isinstance(sl.lo, (int, SInt)):
                return None
            r = cut(pieces, iterm(sl.lo))
            if r is None:
                return None
            pieces = r[1]
        return mkstr(pieces)

    def _rope_slice(self, o, sl):
        """Slices that cut inside leading/trailing literal pieces."""
        pieces = list(o.pieces) if isinstance(o, SStr) else [o]
        lo, hi = sl.lo, sl.hi
        if lo is None:
            lo = 0
        if isinstance(lo, int) and lo >= 0 and (hi is None or isinstance(hi, int) and hi < 0):
            if lo > 0:
                if not (isinstance(pieces[0], str) and len(pieces[0]) >= lo):
                    return None
                pieces[0] = pieces[0][lo:]
            if hi is not None:
                if not (isinstance(pieces[-1], str) and len(pieces[-1]) >= -hi and len(pieces) > 1):
                    return None
                pieces[-1] = pieces[-1][:hi]
            return mkstr(pieces)
        return None

    # ------------------------------------------------------------ dict / list mutation
    def dict_set(self, d, k, v):
        for idx, (k2, v2) in enumerate(d.entries):
            if self.truth(self.eq(k2, k)):
                new = list(d.entries)
                new[idx] = (k2, v)
                self.e.jset(d, "entries", new)
                return
        self.e.jset(d, "entries", d.entries + [(k, v)])

    def setitem(self, o, i, v):
        if isinstance(o, Obj):
            m = self.class_lookup(o.cls, "__setitem__")
            if isinstance(m, types.FunctionType):
                self.call(m, [o, i, v])
                return
            if isinstance(o.prim, (PDict, PList)):
                o = o.prim
        if isinstance(o, PDict):
            if o.poison:
                raise CarriedRead("loop body writes a shared dictionary")
            self.dict_set(o, i, v)
            return
        if isinstance(o, PList):
            parts = self.parts_of(o)
            if isinstance(i, int) and all(k == "i" for k, _ in parts):
                if not -len(parts) <= i < len(parts):
                    self.throw(IndexError, "assignment index out of range")
                new = list(parts)
                new[i] = ("i", v)
                self.e.jset(o, "parts", new)
                return
        if isinstance(o, Ref) and "__setitem__" in o.kind.methods:
            o.kind.methods["__setitem__"](self, o, [i, v], {})
            return
        raise Unsupported("item assignment on %r" % (o,))

    def delitem(self, o, i):
        if isinstance(o, Obj):
            m = self.class_lookup(o.cls, "__delitem__")
            if isinstance(m, types.FunctionType):
                self.call(m, [o, i])
                return
            if isinstance(o.prim, (PDict, PList)):
                o = o.prim
        if isinstance(o, PDict):
            for idx, (k2, _) in enumerate(o.entries):
                if self.truth(self.eq(k2, i)):
                    self.e.jset(o, "entries", o.entries[:idx] + o.entries[idx + 1:])
                    return
            self.throw(KeyError, i)
        if isinstance(o, Ref) and "__delitem__" in o.kind.methods:
            o.kind.methods["__delitem__"](self, o, [i], {})
            return
        raise Unsupported("del item on %r" % (o,))

    def append_part(self, pl, part):
        self.e.jset(pl, "parts", pl.parts + [part])

    # ------------------------------------------------------------ statements
    def block(self, stmts, fr):
        for s in stmts:
            ctl = self.stmt(s, fr)
            if ctl is not None:
                return ctl
        return None

    def stmt(self, s, fr):
        m = getattr(self, "st_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement %s (line %s)" % (type(s).__name__, getattr(s, "lineno", "?")))
        return m(s, fr)

    def st_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return None
        self.ev(s.value, fr)

    def st_Pass(self, s, fr):
        return None

    def st_Return(self, s, fr):
        return _Return(self.ev(s.value, fr) if s.value is not None else None)

    def st_Break(self, s, fr):
        return "break"

    def st_Continue(self, s, fr):
        return "continue"

    def st_If(self, s, fr):
        if self.truth(self.ev(s.test, fr)):
            return self.block(s.body, fr)
        return self.block(s.orelse, fr)

    def st_Assert(self, s, fr):
        if not self.truth(self.ev(s.test, fr)):
            self.throw(AssertionError, "")

    def st_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def st_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def st_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.load_name(t.id, fr)
            self.store_name(t.id, self.aug(s.op, cur, self.ev(s.value, fr)), fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            nm = self.mangle(t.attr, fr)
            self.setattr(o, nm, self.aug(s.op, self.getattr(o, nm), self.ev(s.value, fr)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            i = self.ev(t.slice, fr)
            self.setitem(o, i, self.aug(s.op, self.getitem(o, i), self.ev(s.value, fr)))
        else:
            raise Unsupported("augmented assignment")

    def aug(self, op, cur, v):
        if isinstance(cur, PList) and isinstance(op, ast.Add):
            self.e.jset(cur, "parts", cur.parts + self.iterate(v))
            return cur
        return self.binop(op, cur, v)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), self.mangle(t.attr, fr), v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, fr), self.ev(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, fr)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr)
        else:
            raise Unsupported("assignment target %s" % type(t).__name__)

    def unpack(self, elts, v, fr):
        parts = self.iterate(v)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        n = len(elts)
        if not all(k == "i" for k, _ in parts):
            ln = iterm(self.e.seq_len(parts))
            if star:
                if not self.e.branch(ln >= n - 1):
                    self.throw(ValueError, "not enough values to unpack")
                i, after = star[0], n - 1 - star[0]
                whole = PList(list(parts))
                vals = [self.index_parts(parts, z3.IntVal(k)) for k in range(i)]
                vals.append(self.getitem(whole, Slice(i, -after if after else None, None)))
                vals += [self.index_parts(parts, z3.simplify(ln - after + k)) for k in range(after)]
                for e, x in zip(elts, vals):
                    self.assign(e.value if isinstance(e, ast.Starred) else e, x, fr)
                return
            if not self.e.branch(ln == n):
                self.throw(ValueError, "unpack")
            vals = [self.index_parts(parts, z3.IntVal(i)) for i in range(n)]
        else:
            vals = [x for _, x in parts]
        if star:
            i = star[0]
            if len(vals) < n - 1:
                self.throw(ValueError, "not enough values to unpack")
            mid = len(vals) - (n - 1)
            vals = vals[:i] + [PList.of(vals[i:i + mid])] + vals[i + mid:]
        elif len(vals) != n:
            self.throw(ValueError, "unpack")
        for e, x in zip(elts, vals):
            self.assign(e, x, fr)

    def st_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                self.delitem(self.ev(t.value, fr), self.ev(t.slice, fr))
            else:
                raise Unsupported("del")

    def st_Raise(self, s, fr):
        if s.exc is None:
            f = fr.fn_frame()
            if f.handling is None:
                raise Unsupported("bare raise")
            raise Raise(f.handling)
        v = self.ev(s.exc, fr)
        if isinstance(v, type):
            v = self.instantiate(v, [], {})
        if not isinstance(v, Obj):
            raise Unsupported("raise of %r" % (v,))
        raise Raise(v)

    def st_Try(self, s, fr):
        f = fr.fn_frame()
        ctl = None
        try:
            try:
                ctl = self.block(s.body, fr)
                if ctl is None:
                    ctl = self.block(s.orelse, fr)
            except Raise as r:
                for h in s.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        cls = self.ev(h.type, fr)
                        ok = issubclass(r.exc.cls, cls)
                    if ok:
                        if h.name:
                            fr.env[h.name] = r.exc
                        old = f.handling
                        f.handling = r.exc
                        try:
                            ctl = self.block(h.body, fr)
                        finally:
                            f.handling = old
                        break
                else:
                    raise
        except (Raise,):
            if s.finalbody:
                c2 = self.block(s.finalbody, fr)
                if c2 is not None:
                    return c2
            raise
        if s.finalbody:
            c2 = self.block(s.finalbody, fr)
            if c2 is not None:
                return c2
        return ctl

    def st_With(self, s, fr):
        mgrs = []
        for item in s.items:
            m = self.ev(item.context_expr, fr)
            v = self.call(self.getattr(m, "__enter__"), []) if not isinstance(m, Opaque) else m
            mgrs.append(m)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, fr)
        try:
            return self.block(s.body, fr)
        finally:
            for m in reversed(mgrs):
                if not isinstance(m, Opaque):
                    self.call(self.getattr(m, "__exit__"), [None, None, None])

    def st_Global(self, s, fr):
        raise Unsupported("global statement")

    def st_Nonlocal(self, s, fr):
        fr.nonlocals = tuple(fr.nonlocals) + tuple(s.names)

    def st_Import(self, s, fr):
        import importlib
        for a in s.names:
            mod = importlib.import_module(a.name)
            if a.asname:
                fr.env[a.asname] = mod
            else:
                fr.env[a.name.split(".")[0]] = importlib.import_module(a.name.split(".")[0])

    def st_ImportFrom(self, s, fr):
        import importlib
        name = s.module or ""
        if s.level:
            pkg = fr.globals.get("__package__") or ""
            name = "." * s.level + name
            mod = importlib.import_module(name, pkg)
        else:
            mod = importlib.import_module(name)
        for a in s.names:
            fr.env[a.asname or a.name] = getattr(mod, a.name)

    def st_FunctionDef(self, s, fr):
        clo = Closure(s, fr, fr.globals, fr.clsname,
                      [self.ev(d, fr) for d in s.args.defaults],
                      {k.arg: self.ev(d, fr) for k, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None},
                      s.name, fr.cell_class)
        v = clo
        for d in reversed(s.decorator_list):
            v = self.call(self.ev(d, fr), [v])
        fr.env[s.name] = v

    def st_For(self, s, fr):
        parts = self.iterate(self.ev(s.iter, fr))
        folds = []
        if any(k != "i" for k, _ in parts):
            s, folds = self.folded_for(s, fr)
        try:
            ctl = self.run_for(parts, lambda x, f: self.assign(s.target, x, f), s.body, fr, s)
        finally:
            for fold in folds:
                self.finish_fold(fold, fr)
        if ctl == "break":
            return None
        if ctl is None:
            return self.block(s.orelse, fr)
        return ctl

    def folded_for(self, s, fr):
        """The loop with each name that it only adds to (or only takes the greater or lesser of) replaced by the list of what it
        is given; the value follows from that list once the loop is over."""
        known = s.__dict__.get("folds")
        if known is None:
            known = s.folds = _folds(s)
        folds = [(name, kind) for name, kind in known.items() if self.foldable(kind, fr.env.get(name, NOTFOUND))]
        if not folds:
            return s, ()
        key = tuple(sorted(folds))
        cache = s.__dict__.setdefault("folded", {})
        if key not in cache:
            cache[key] = _fold_body(s, dict(folds))
        for name, kind in folds:
            fr.env[name + "#terms"] = PList.of([])
        return cache[key], folds

    def foldable(self, kind, init):
        if isinstance(init, bool):
            return False
        if kind == "sum":
            return isinstance(init, (int, SInt, str, SStr))
        return isinstance(init, (int, SInt))

    def finish_fold(self, fold, fr):
        name, kind = fold
        init, terms = fr.env[name], fr.env.pop(name + "#terms")
        if isinstance(init, (str, SStr)):
            joined = self.call(self.getattr("", "join"), [terms])
            fr.env[name] = self.binop(ast.Add(), init, joined)
        elif kind == "sum":
            fr.env[name] = self.binop(ast.Add(), init, self.call(sum, [terms]))
        elif self.truth(terms):
            best = self.call(max if kind == "max" else min, [terms])
            fr.env[name] = self.call(max if kind == "max" else min, [init, best])

    def run_for(self, parts, bindf, body, fr, node):
        for k, v in parts:
            if k == "i":
                bindf(v, fr)
                ctl = self.block(body, fr)
                if ctl == "continue":
                    ctl = None
                if ctl is not None:
                    return ctl
            elif k == "b":
                if isinstance(v.n, int):
                    v = Base(z3.IntVal(v.n), v.at, v.ident, v.elem)

                def runner(j, f, v=v):
                    bindf(v.at(j), f)
                    c = self.block(body, f)
                    return None if c == "continue" else c
                ctl = self.sym_loop(v.n, runner, fr, _assigned(body) | _target_names(node), self.e.family(v.ident), node)
                if ctl is not None:
                    return ctl
            else:
                def runner(j, f, v=v):
                    return self.run_for(v.emit(j), bindf, body, f, node)
                ctl = self.sym_loop(v.n, runner, fr, _assigned(body) | _target_names(node), None, node)
                if ctl is not None:
                    return ctl
        return None

    def sym_loop(self, n, runner, fr, assigned, family, node=None):
        """A loop over a symbolic index range [0,n).

        Summarised as an append-only fold (each accumulator becomes Flat/Base), or as a first-exit search.
        Anything else needs an invariant and is unsupported here."""
        e = self.e
        n = n if not isinstance(n, int) else z3.IntVal(n)
        if e.entails(n == 0):
            return None
        ns = z3.simplify(n)
        if z3.is_int_value(ns) and ns.as_long() <= 6:
            for j in range(ns.as_long()):
                ctl = runner(z3.IntVal(j), fr)
                if ctl is not None:
                    return ctl
            return None
        line = " (line %s)" % node.lineno if node is not None and hasattr(node, "lineno") else ""
        carried = set(assigned)   # names whose value a normal iteration may change

        def frame_at(base):
            f = base.snapshot()
            for nm in carried:
                if nm in f.env:
                    f.env[nm] = Poison(nm)
            return f

        def body_at(j, accs, f):
            """Run the body at index j on frame f; returns (control, {uid: accumulator})."""
            replayed = e.replayed
            e.replayed = replayed | {a.uid for a in accs}
            try:
                for a in accs:
                    e.jset(a, "parts", [])
                    e.jset(a, "poison", True)
                start_uid = Heap.counter[0]
                m2 = len(e.journal)
                try:
                    ctl = runner(j, f)
                except Raise as r:
                    ctl = r
            finally:
                e.replayed = replayed
            effects = {}
            if ctl is not None:
                return ctl, effects   # the exit iteration is executed for real, its effects are unrestricted
            for target, slot, old, new in e.journal[m2:]:
                if not isinstance(target, Heap) or target.uid > start_uid:
                    continue
                if isinstance(target, PList) and slot == "parts" and len(new) >= len(old) \
                        and all(x is y or x[1] is y[1] for x, y in zip(new, old)):
                    effects[target.uid] = target
                    continue
                raise CarriedRead("loop body mutates %s.%s at each iteration: an invariant is needed%s"
                                  % (type(target).__name__, slot, line))
            return ctl, effects

        def probe(accs):
            def one():
                k = e.fresh_int("it")
                e.assume_checked(z3.And(k >= 0, k < n))
                f = frame_at(fr)
                before = dict(f.env)
                ctl, eff = body_at(k, accs, f)
                kinds = {a.uid: [p[0] for p in a.parts] for a in accs}
                cc = None if ctl is None else ("raise" if isinstance(ctl, Raise) else
                                               ("return" if isinstance(ctl, _Return) else ctl))
                changed = {nm for nm in assigned if f.env.get(nm, NOTFOUND) is not before.get(nm, NOTFOUND)}
                return cc, eff, kinds, changed
            return e.nested(one)
        # A name that normal iterations never assign keeps its initial value throughout.  First find those names with
        # every assigned name unknown; when that reads an unknown, retry assuming none changes and check the guess.
        try:
            r1 = probe([])
        except CarriedRead:
            guess = set(_loop_reads(node)) & set(assigned) if node is not None else set()
            if hasattr(node, "target"):
                guess -= _target_names(node)
            while True:
                if not guess:
                    raise
                carried = set(assigned) - guess
                r1 = probe([])
                wrong = set()
                for c, _, _, ch in r1:
                    if c is None:
                        wrong |= guess & ch
                if not wrong:
                    break
                guess -= wrong
        changed = set()
        for c, _, _, ch in r1:
            if c is None:
                changed |= ch
        carried = changed
        accs = {}
        for _, eff, _k, _c in r1:
            accs.update(eff)
        accs = [accs[u] for u in sorted(accs)]
        r2 = probe(accs)
        exits = {c for c, _, _, _ in r2 if c is not None}
        normal = [r for r in r2 if r[0] is None]
        for r in normal:
            if not r[3] <= changed:
                raise CarriedRead("loop-carried names%s" % line)
        snap = fr.snapshot()
        jmark = e.now()

        def normal_run(j, after):
            def go():
                f = frame_at(snap)
                ctl, _ = body_at(j, accs, f)
                if ctl is not None:
                    raise Infeasible()
                return after(f)
            return e.at_time(jmark, go)

        loop_id = object()

        def emit_at(j, acc):
            """The parts added to acc by iteration j; what a path has worked out about an iteration it keeps."""
            key = (loop_id, acc.uid, j.get_id())
            got = e.emitted.get(key)
            if got is None:
                got = normal_run(j, lambda f: list(acc.parts))
                e.keep.append(j)
                e.emitted[key] = got
            return list(got)

        def normal_at(j):
            normal_run(j, lambda f: None)

        def accumulate(bound):
            for a in accs:
                single = bool(normal) and all(kinds.get(a.uid, []) == ["i"] for _, _, kinds, _ in normal)
                if single:
                    part = ("b", Base(bound, lambda j, a=a: emit_at(j, a)[0][1],
                                      ("map", ("#", family), e.fresh_name("m")) if family else None))
                else:
                    part = ("f", Flat(bound, lambda j, a=a: emit_at(j, a), family=family))
                self.append_part(a, part)

        def finish(bound):
            """Values of assigned names after `bound` normal iterations."""
            for nm in changed:
                init = fr.env.get(nm, NOTFOUND)
                always = all(nm in ch for _, _, _, ch in normal)

                def sometimes(nm=nm, init=init):
                    """Value when only some iterations assign the name: the last one that does decides."""
                    if init is NOTFOUND:
                        raise CarriedRead("read of %s, assigned by only some iterations" % nm)

                    def assigns(j):
                        def look(f):
                            v = f.env.get(nm)
                            return None if isinstance(v, Poison) and v.thunk is None else (v,)
                        return normal_run(j, look)

                    def no_assign(j):
                        if assigns(j) is not None:
                            raise Infeasible()
                    if e.choose(2, "last assignment") == 0:
                        e.add_universal(bound, no_assign, family)
                        return init
                    w = e.fresh_int("last")
                    e.assume_checked(z3.And(w >= 0, w < bound))
                    r = assigns(w)
                    if r is None:
                        raise Infeasible()

                    def later(j):
                        if e.branch(j > w):
                            no_assign(j)
                    e.add_universal(bound, later, family)
                    e.add_witness(w, family)
                    return r[0]

                def last(nm=nm, init=init):
                    if init is not NOTFOUND and e.branch(bound == 0):
                        return init
                    return normal_run(z3.simplify(bound - 1), lambda f: f.env[nm])
                fr.env[nm] = Poison(nm, last if always else sometimes)

        if not exits:
            accumulate(n)
            finish(n)
            return None
        if not normal:
            # every iteration exits: the first one decides
            if e.branch(n > 0):
                return runner(z3.IntVal(0), fr)
            return None
        if e.choose(2, "loop exit") == 0:
            # every iteration is normal
            e.add_universal(n, normal_at, family)
            accumulate(n)
            finish(n)
            return None
        k = e.fresh_int("exit")
        e.assume_checked(z3.And(k >= 0, k < n))
        e.add_universal(k, normal_at, family)
        e.add_witness(k, family)
        accumulate(k)
        finish(k)
        ctl = runner(k, fr)
        if ctl is None:
            raise Infeasible()
        return ctl

    def st_While(self, s, fr):
        spec = self.find_loop_spec(s, fr)
        if spec is not None:
            return spec(self, s, fr)
        counted = self.counted_while(s, fr)
        if counted is not None:
            return counted[0]
        for _ in range(200):
            if not self.truth(self.ev(s.test, fr)):
                return self.block(s.orelse, fr)
            ctl = self.block(s.body, fr)
            if ctl == "break":
                return None
            if ctl is not None and ctl != "continue":
                return ctl
        raise CarriedRead("while loop at line %d needs an invariant" % s.lineno)

    def counted_while(self, s, fr):
        """A while loop that counts a name up, one by one, to the length of a sequence of unknown length: the same fold or
        search as the for loop it spells out.  That the name grows by one and that the length stays is proved, not assumed.
        Returns None when the loop is not of this kind, else a one-tuple of the control outcome."""
        test, body, orelse = s.test, s.body, s.orelse
        if isinstance(test, ast.Constant) and test.value and not orelse and body and isinstance(body[0], ast.If) and not body[0].orelse \
                and len(body[0].body) == 1 and isinstance(body[0].body[0], ast.Break):
            test, body = ast.UnaryOp(ast.Not(), body[0].test), body[1:]
        while isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            inner = test.operand
            if isinstance(inner, ast.UnaryOp) and isinstance(inner.op, ast.Not):
                test = inner.operand
            elif isinstance(inner, ast.Compare) and len(inner.ops) == 1 and type(inner.ops[0]) in _NEGATED:
                test = ast.Compare(inner.left, [_NEGATED[type(inner.ops[0])]()], inner.comparators)
            else:
                return None
        if not (isinstance(test, ast.Compare) and len(test.ops) == 1):
            return None
        left, op, right = test.left, test.ops[0], test.comparators[0]
        if isinstance(op, ast.Gt):
            left, op, right = right, ast.Lt(), left
        if isinstance(op, ast.NotEq) and not isinstance(left, ast.Name):
            left, right = right, left
        if not (isinstance(op, (ast.Lt, ast.NotEq)) and isinstance(left, ast.Name)):
            return None
        if isinstance(right, ast.Call) and isinstance(right.func, ast.Name) and right.func.id == "len" and len(right.args) == 1:
            seen = right.args[0]
        elif isinstance(right, ast.Name):
            seen = None
        else:
            return None
        name = left.id
        if name not in fr.env:
            return None
        start = self.load_name(name, fr)
        if isinstance(start, bool) or not isinstance(start, (int, SInt)):
            return None
        bound = self.ev(right, fr)
        if not isinstance(bound, SInt):
            return None
        e = self.e
        if seen is not None:
            seq = self.ev(seen, fr)
            if isinstance(seq, Obj):
                seq = seq.prim
            if not isinstance(seq, (PList, STuple)):
                return None
            if any(k not in ("i", "b") for k, v in seq.parts):
                return self.walked_while(s, seen, name, start, bound, seq, body, orelse, fr)
            family = None
            for k, v in seq.parts:
                if k == "b" and not isinstance(v.n, int):
                    family = e.family(v.ident)
        else:
            family = None
        n = z3.simplify(bound.t - iterm(start))
        if e.entails(n <= 6):
            return None
        if isinstance(op, ast.NotEq):
            if not e.entails(n >= 0):
                return None
        elif not e.entails(n >= 0):
            n = z3.If(n >= 0, n, z3.IntVal(0))

        def runner(j, f, offset=0):
            f.env[name] = mkint(z3.simplify(iterm(start) + offset + j))
            again = self.ev(right, f)
            if not isinstance(again, (int, SInt)) or not (iterm(again).eq(bound.t) or e.entails(iterm(again) == bound.t)):
                raise CarriedRead("the bound of the while loop at line %d changes" % s.lineno)
            c = self.block(body, f)
            if c is None or c == "continue":
                now = f.env.get(name)
                if not isinstance(now, (int, SInt)) or not e.entails(iterm(now) == iterm(start) + offset + j + 1):
                    raise CarriedRead("while loop at line %d needs an invariant: %s does not grow by one" % (s.lineno, name))
                return None
            return c
        pieces = self.counted_pieces(name, start, bound, body, fr)
        if pieces is not None:
            # part by part: the elements known one by one, then each part of unknown length
            ctl, offset = None, z3.IntVal(0)
            for k, v in pieces:
                if k == "i":
                    ctl, size = runner(0, fr, offset), 1
                else:
                    def part(j, f, offset=offset):
                        return runner(j, f, offset)
                    size = v.n
                    ctl = self.sym_loop(size, part, fr, _assigned(body) | {name}, e.family(v.ident), s)
                if ctl is not None:
                    break
                offset = offset + size
        else:
            ctl = self.sym_loop(n, runner, fr, _assigned(body) | {name}, family, s)
        if ctl == "break":
            return (None,)
        if ctl is None:
            fr.env[name] = mkint(z3.simplify(iterm(start) + n))
            return (self.block(orelse, fr),)
        return (ctl,)

    def walked_while(self, s, seen, name, start, bound, seq, body, orelse, fr):
        """The same over a sequence whose elements have no known place: only when the body takes the element of that number,
        counts, and uses the number for nothing else, which makes it the for loop over the sequence."""
        if not (isinstance(seen, ast.Name) and self.e.entails(iterm(start) == 0)):
            return None
        counts = [i for i, b in enumerate(body) if isinstance(b, ast.AugAssign) and isinstance(b.target, ast.Name) and b.target.id == name
                  and isinstance(b.op, ast.Add) and isinstance(b.value, ast.Constant) and b.value.value == 1]
        if len(counts) != 1 or any(isinstance(x, (ast.Continue, ast.Break)) for b in body[:counts[0]] for x in ast.walk(b)):
            return None
        one = "%s[%s]" % (seen.id, name)

        class Take(ast.NodeTransformer):
            def visit_Subscript(self, x):
                if isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name) and x.value.id == seen.id \
                        and isinstance(x.slice, ast.Name) and x.slice.id == name:
                    return ast.copy_location(ast.Name(one, ast.Load()), x)
                return self.generic_visit(x)
        rest = s.__dict__.get("walked")
        if rest is None:
            rest = s.walked = [Take().visit(copy.deepcopy(b)) for b in body[:counts[0]]] + body[counts[0] + 1:]
        if any(isinstance(x, ast.Name) and x.id in (name, seen.id) for b in rest for x in ast.walk(b)):
            return None
        ctl = self.run_for(self.iterate(seq), lambda x, f: f.env.__setitem__(one, x), rest, fr, ast.copy_location(
            ast.For(ast.Name(one, ast.Store()), seen, rest, []), s))
        fr.env.pop(one, None)
        fr.env[name] = bound
        if ctl == "break":
            k = self.e.fresh_int("count")
            self.e.assume_checked(z3.And(k >= 1, k <= bound.t))
            fr.env[name] = mkint(k)
            return (None,)
        return (self.block(orelse, fr),) if ctl is None else (ctl,)

    def counted_pieces(self, name, start, bound, body, fr):
        """The parts of the sequence a counted loop goes through from its beginning to its end, if that is what it does."""
        e = self.e
        if not e.entails(iterm(start) == 0):
            return None
        for b in body:
            for x in ast.walk(b):
                if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and isinstance(x.slice, ast.Name) and x.slice.id == name \
                        and x.value.id in fr.env:
                    seq = fr.env[x.value.id]
                    if isinstance(seq, Obj):
                        seq = seq.prim
                    if isinstance(seq, (PList, STuple)) and len(seq.parts) > 1 and all(k in ("i", "b") for k, v in seq.parts) \
                            and e.entails(iterm(e.seq_len(seq.parts)) == bound.t):
                        return list(seq.parts)
        return None

    def find_loop_spec(self, s, fr):
        return self.loop_specs.get(fr.fn_frame().name)

    # ------------------------------------------------------------ names
    def mangle(self, name, fr):
        if name.startswith("__") and not name.endswith("__") and fr.clsname:
            return "_%s%s" % (fr.clsname.lstrip("_"), name)
        return name

    def load_name(self, name, fr):
        f = fr
        while f is not None:
            if name in f.env:
                v = f.env[name]
                if isinstance(v, Poison) and v.thunk is not None:
                    v = f.env[name] = v.thunk()
                if isinstance(v, Poison):
                    raise CarriedRead("read of loop-carried variable %s" % name)
                return v
            f = f.parent
        m = self.mangle(name, fr)
        if m in fr.globals:
            key = (fr.globals.get("__name__"), m)
            if key in self.module_overrides:
                return self.module_overrides[key]
            return fr.globals[m]
        if hasattr(builtins, name):
            return getattr(builtins, name)
        if name == "__class__" and fr.cell_class is not None:
            return fr.cell_class
        self.throw(NameError, "name %s is not defined" % name)

    def store_name(self, name, v, fr):
        if name in fr.nonlocals:
            f = fr.parent
            while f is not None:
                if name in f.env:
                    f.env[name] = v
                    return
                f = f.parent
        fr.env[name] = v

    # ------------------------------------------------------------ expressions
    def ev(self, x, fr):
        m = getattr(self, "ex_" + type(x).__name__, None)
        if m is None:
            raise Unsupported("expression %s (line %s)" % (type(x).__name__, getattr(x, "lineno", "?")))
        return m(x, fr)

    def ex_Constant(self, x, fr):
        return x.value

    def ex_Name(self, x, fr):
        return self.load_name(x.id, fr)

    def ex_Attribute(self, x, fr):
        return self.getattr(self.ev(x.value, fr), self.mangle(x.attr, fr))

    def ex_NamedExpr(self, x, fr):
        v = self.ev(x.value, fr)
        f = fr
        while f.name == "<comp>" and f.parent is not None:
            f = f.parent
        self.store_name(x.target.id, v, f)
        return v

    def ex_Subscript(self, x, fr):
        o = self.ev(x.value, fr)
        return self.getitem(o, self.ev(x.slice, fr))

    def ex_Slice(self, x, fr):
        return Slice(*[self.ev(y, fr) if y is not None else None for y in (x.lower, x.upper, x.step)])

    def ex_Tuple(self, x, fr):
        parts = self.elts(x.elts, fr)
        return self.mk_tuple(parts)

    def ex_List(self, x, fr):
        return PList(self.elts(x.elts, fr))

    def ex_Set(self, x, fr):
        s = PSet()
        for k, v in self.elts(x.elts, fr):
            if k != "i":
                raise Unsupported("set of a symbolic sequence")
            if not self.set_has(s, v):
                s.items.append(v)
        return s

    def elts(self, elts, fr):
        out = []
        for el in elts:
            if isinstance(el, ast.Starred):
                out.extend(self.iterate(self.ev(el.value, fr)))
            else:
                out.append(("i", self.ev(el, fr)))
        return out

    def ex_Dict(self, x, fr):
        d = PDict()
        for k, v in zip(x.keys, x.values):
            if k is None:
                src = self.ev(v, fr)
                for k2, v2 in self.dict_items(src):
                    self.dict_set(d, k2, v2)
            else:
                kk = self.ev(k, fr)
                self.dict_set(d, kk, self.ev(v, fr))
        return d

    def dict_items(self, d):
        if isinstance(d, Obj):
            d = d.prim
        if isinstance(d, PDict):
            if d.poison:
                raise CarriedRead("loop body reads a dictionary it also writes")
            return list(d.entries)
        if isinstance(d, dict):
            return list(d.items())
        raise Unsupported("items of %r" % (d,))

    def ex_BoolOp(self, x, fr):
        v = None
        for i, y in enumerate(x.values):
            v = self.ev(y, fr)
            if i == len(x.values) - 1:
                return v
            t = self.truth(v)
            if isinstance(x.op, ast.And) and not t:
                return False if isinstance(v, (SBool, bool)) else v
            if isinstance(x.op, ast.Or) and t:
                return True if isinstance(v, (SBool, bool)) else v
        return v

    def ex_UnaryOp(self, x, fr):
        v = self.ev(x.operand, fr)
        if isinstance(x.op, ast.Not):
            if isinstance(v, SBool):
                return mkbool(z3.Not(v.t))
            return not self.truth(v)
        if isinstance(x.op, ast.USub):
            if isinstance(v, SInt):
                return mkint(-v.t)
            if isinstance(v, SReal):
                return SReal(-v.t)
            return -v
        if isinstance(x.op, ast.UAdd):
            return v
        raise Unsupported("unary operator")

    def ex_BinOp(self, x, fr):
        return self.binop(x.op, self.ev(x.left, fr), self.ev(x.right, fr))

    def binop(self, op, a, b):
        for v in (a, b):
            if isinstance(v, Poison):
                raise CarriedRead("arithmetic on loop-carried value %s" % v.name)
        if isinstance(op, ast.Mod) and isinstance(a, (str, SStr)):
            return self.percent_format(a, b)
        num = (int, SInt, bool, SBool)
        if isinstance(a, num) and isinstance(b, num):
            if not isinstance(a, (SInt, SBool)) and not isinstance(b, (SInt, SBool)):
                return self._concrete_binop(op, a, b)
            ta, tb = iterm(a), iterm(b)
            if isinstance(op, ast.Add):
                return mkint(ta + tb)
            if isinstance(op, ast.Sub):
                return mkint(ta - tb)
            if isinstance(op, ast.Mult):
                return mkint(ta * tb)
            if isinstance(op, (ast.FloorDiv, ast.Mod)):
                if self.e.branch(tb == 0):
                    self.throw(ZeroDivisionError, "division by zero")
                if not self.e.branch(tb > 0):
                    q = z3.ToInt(z3.ToReal(ta) / z3.ToReal(tb))
                    return mkint(q if isinstance(op, ast.FloorDiv) else ta - q * tb)
                return mkint(ta / tb if isinstance(op, ast.FloorDiv) else ta % tb)
            if isinstance(op, ast.Div):
                if self.e.branch(tb == 0):
                    self.throw(ZeroDivisionError, "division by zero")
                self.e.trusted.add("float division treated as exact rational division")
                return SReal(z3.ToReal(ta) / z3.ToReal(tb))
            raise Unsupported("integer operator %s" % type(op).__name__)
        if isinstance(a, (SReal, float)) or isinstance(b, (SReal, float)):
            if not isinstance(a, SReal) and not isinstance(b, SReal) and not isinstance(a, SInt) and not isinstance(b, SInt):
                return self._concrete_binop(op, a, b)
            ra, rb = self.real(a), self.real(b)
            if isinstance(op, ast.Add):
                return SReal(ra + rb)
            if isinstance(op, ast.Sub):
                return SReal(ra - rb)
            if isinstance(op, ast.Mult):
                return SReal(ra * rb)
            if isinstance(op, ast.Div):
                if self.e.branch(rb == 0):
                    self.throw(ZeroDivisionError, "division by zero")
                return SReal(ra / rb)
            raise Unsupported("real operator")
        pa = a.prim if isinstance(a, Obj) else a
        pb = b.prim if isinstance(b, Obj) else b
        if isinstance(op, ast.Add):
            if isinstance(a, Obj):
                m = self.class_lookup(a.cls, "__add__")
                if isinstance(m, types.FunctionType):
                    r = self.call(m, [a, b])
                    if r is not NotImplemented:
                        return r
            if isinstance(b, Obj):
                m = self.class_lookup(b.cls, "__radd__")
                if isinstance(m, types.FunctionType):
                    return self.call(m, [b, a])
            if isinstance(pa, (str, SStr)) and isinstance(pb, (str, SStr)):
                if isinstance(pa, str) and isinstance(pb, str):
                    return pa + pb
                return mkstr((pa, pb))
            if isinstance(pa, (PList, list)) and isinstance(pb, (PList, list)):
                return PList(list(self.parts_of(pa)) + list(self.parts_of(pb)))
            if isinstance(pa, (tuple, STuple)) and isinstance(pb, (tuple, STuple)):
                return self.mk_tuple(list(self.parts_of(pa)) + list(self.parts_of(pb)))
        if isinstance(op, ast.Mult):
            if isinstance(pa, (PList, list)) and isinstance(pb, (int, SInt)):
                if isinstance(pb, int):
                    return PList(list(self.parts_of(pa)) * pb)
                parts = self.parts_of(pa)
                if len(parts) == 1 and parts[0][0] == "i":
                    v = parts[0][1]
                    n = pb.t
                    if self.e.branch(n <= 0):
                        return PList([])
                    return PList([("b", Base(n, lambda i: v))])
            if isinstance(pa, str) and isinstance(pb, int):
                return pa * pb
        if isinstance(op, ast.BitOr) and isinstance(pa, PSet) and isinstance(pb, PSet):
            s = PSet(pa.items)
            for v in pb.items:
                if not self.set_has(s, v):
                    s.items.append(v)
            return s
        if isinstance(op, ast.BitAnd) and isinstance(pa, PSet) and isinstance(pb, PSet):
            return PSet([v for v in pa.items if self.set_has(pb, v)])
        if isinstance(op, ast.Sub) and isinstance(pa, PSet) and isinstance(pb, PSet):
            return PSet([v for v in pa.items if not self.set_has(pb, v)])
        if deep_concrete(pa) and deep_concrete(pb):
            return self._concrete_binop(op, to_native(pa), to_native(pb))
        if isinstance(pa, Opaque) or isinstance(pb, Opaque):
            raise Unsupported("operator on an opaque value")
        if isinstance(op, ast.Add) and all(isinstance(x, (str, SStr, int, SInt, PList, tuple, STuple)) or x is None
                                           for x in (pa, pb)):
            self.throw(TypeError, "unsupported operand types")
        raise Unsupported("operator %s on %r and %r" % (type(op).__name__, a, b))

    _OPS = {ast.Add: lambda a, b: a + b, ast.Sub: lambda a, b: a - b, ast.Mult: lambda a, b: a * b,
            ast.Div: lambda a, b: a / b, ast.FloorDiv: lambda a, b: a // b, ast.Mod: lambda a, b: a % b,
            ast.Pow: lambda a, b: a ** b, ast.BitOr: lambda a, b: a | b, ast.BitAnd: lambda a, b: a & b,
            ast.LShift: lambda a, b: a << b, ast.RShift: lambda a, b: a >> b, ast.BitXor: lambda a, b: a ^ b}

    def _concrete_binop(self, op, a, b):
        try:
            return from_native(self._OPS[type(op)](a, b))
        except Exception as E:
            raise Raise(Obj(type(E), {}, prim=(str(E),)))

    def percent_format(self, a, b):
        if isinstance(a, str) and deep_concrete(b):
            try:
                return a % to_native(b)
            except Exception as E:
                raise Raise(Obj(type(E), {}, prim=(str(E),)))
        if not isinstance(a, str):
            raise Unsupported("symbolic % format")
        vals = list(b) if isinstance(b, tuple) else [b]
        out, i = [], 0
        while i < len(a):
            if a[i] == "%" and i + 1 < len(a):
                if a[i + 1] == "%":
                    out.append("%")
                elif a[i + 1] in "sdr":
                    if not vals:
                        self.throw(TypeError, "not enough arguments for format string")
                    v = vals.pop(0)
                    out.append(self.to_str(v) if a[i + 1] != "r" else SStr((self.e.fresh_str("repr"),)))
                else:
                    raise Unsupported("% format")
                i += 2
                continue
            out.append(a[i])
            i += 1
        return mkstr(out)

    def ex_Compare(self, x, fr):
        left = self.ev(x.left, fr)
        res = True
        n = len(x.ops)
        for i, (op, r) in enumerate(zip(x.ops, x.comparators)):
            right = self.ev(r, fr)
            res = self.compare(op, left, right)
            if i < n - 1:
                if not self.truth(res):
                    return False
            left = right
        return res

    def negate(self, v):
        if isinstance(v, SBool):
            return mkbool(z3.Not(v.t))
        return not self.truth(v)

    def identical(self, a, b):
        if a is b:
            return True
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise CarriedRead("identity of loop-carried value")
        if isinstance(a, SBool) and isinstance(b, bool):
            return mkbool(a.t == b)
        if isinstance(b, SBool) and isinstance(a, bool):
            return mkbool(b.t == a)
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.t.sort() != b.t.sort():
                return False
            return mkbool(a.t == b.t)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            if a is None or b is None:
                return False
            raise Unsupported("identity of an opaque value")
        if isinstance(a, BoundMethod) and isinstance(b, BoundMethod):
            return False
        if is_native(a) and is_native(b) and isinstance(a, (int, str, float)) and isinstance(b, (int, str, float)):
            return type(a) is type(b) and a == b and isinstance(a, int)
        return False

    def compare(self, op, a, b):
        if isinstance(op, ast.Is):
            return self.identical(a, b)
        if isinstance(op, ast.IsNot):
            return self.negate(self.identical(a, b))
        if isinstance(op, ast.Eq):
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            return self.ne(a, b)
        if isinstance(op, ast.In):
            return self.contains(b, a)
        if isinstance(op, ast.NotIn):
            return self.negate(self.contains(b, a))
        names = {ast.Lt: ("__lt__", "__gt__"), ast.Gt: ("__gt__", "__lt__"),
                 ast.LtE: ("__le__", "__ge__"), ast.GtE: ("__ge__", "__le__")}[type(op)]
        for x, y, nm in ((a, b, names[0]), (b, a, names[1])):
            cls = x.cls if isinstance(x, Obj) else (x.kind.cls if isinstance(x, Ref) else None)
            if cls is not None:
                m = self.class_lookup(cls, nm)
                if isinstance(m, types.FunctionType):
                    r = self.call(m, [x, y])
                    if r is not NotImplemented:
                        return r
        num = (int, SInt, bool, SBool)
        pa = a.prim if isinstance(a, Obj) else a
        pb = b.prim if isinstance(b, Obj) else b
        if isinstance(pa, num) and isinstance(pb, num):
            ta, tb = iterm(pa), iterm(pb)
        elif isinstance(pa, num + (float, SReal)) and isinstance(pb, num + (float, SReal)):
            ta, tb = self.real(pa), self.real(pb)
        elif deep_concrete(pa) and deep_concrete(pb):
            try:
                na, nb = to_native(pa), to_native(pb)
                return {ast.Lt: lambda: na < nb, ast.Gt: lambda: na > nb, ast.LtE: lambda: na <= nb,
                        ast.GtE: lambda: na >= nb}[type(op)]()
            except Exception as E:
                raise Raise(Obj(type(E), {}, prim=(str(E),)))
        elif isinstance(pa, (str, SStr)) and isinstance(pb, (str, SStr)):
            ta, tb = sterm(pa), sterm(pb)
        elif (pa is None or pb is None) and not isinstance(pa, (Opaque, Poison)) and not isinstance(pb, (Opaque, Poison)):
            self.throw(TypeError, "not supported between instances")
        elif isinstance(pa, PSet) and isinstance(pb, PSet):
            if isinstance(op, (ast.Gt, ast.GtE)):
                pa, pb = pb, pa
            if not all(self.set_has(pb, v) for v in pa.items):
                return False
            return isinstance(op, (ast.LtE, ast.GtE)) or not all(self.set_has(pa, v) for v in pb.items)
        elif isinstance(pa, Poison) or isinstance(pb, Poison):
            raise CarriedRead("comparison of loop-carried value")
        elif self.listed(pa, pb):
            xs, ys = [v for _, v in self.parts_of(pa)], [v for _, v in self.parts_of(pb)]
            for x, y in zip(xs, ys):
                if not self.truth(self.eq(x, y)):
                    return self.compare(op, x, y)
            return self.compare(op, len(xs), len(ys))
        else:
            raise Unsupported("comparison of %r and %r" % (a, b))
        return mkbool({ast.Lt: lambda: ta < tb, ast.Gt: lambda: ta > tb, ast.LtE: lambda: ta <= tb,
                       ast.GtE: lambda: ta >= tb}[type(op)]())

    def listed(self, a, b):
        """Whether both are tuples, or both lists, of elements known one by one."""
        if not (isinstance(a, (tuple, STuple)) and isinstance(b, (tuple, STuple)) or isinstance(a, (list, PList)) and isinstance(b, (list, PList))):
            return False
        return all(k == "i" for x in (a, b) for k, _ in self.parts_of(x))

    def ne(self, a, b):
        if rdf_model.is_term(a) and rdf_model.is_term(b):
            return self.negate(rdf_model.term_eq(self, a, b))
        order = [(a, b), (b, a)]
        if isinstance(a, Obj) and isinstance(b, Obj) and a.cls is not b.cls and issubclass(b.cls, a.cls):
            order.reverse()
        for x, y in order:
            cls = x.cls if isinstance(x, Obj) else (x.kind.cls if isinstance(x, Ref) and x.kind.eq is None else None)
            if cls is None or rdf_model.is_term(x):
                continue
            m = self.class_lookup(cls, "__ne__")
            if isinstance(m, types.FunctionType):
                r = self.call(m, [x, y])
                if r is not NotImplemented:
                    return r
                continue
            owner_ne = self.class_lookup_owner(cls, "__ne__")
            if owner_ne is object:
                # default __ne__ inverts __eq__
                q = self.class_lookup(cls, "__eq__")
                if isinstance(q, types.FunctionType):
                    r = self.call(q, [x, y])
                    if r is NotImplemented:
                        continue
                    return self.negate(r)
                continue
            return self.negate(self.raw_eq(x, y))  # tuple/str's own __ne__
        return self.negate(self.raw_eq(a, b))

    def contains(self, c, x):
        if isinstance(c, Obj):
            m = self.class_lookup(c.cls, "__contains__")
            if isinstance(m, (types.FunctionType, Closure)):
                return self.truth(self.call(m, [c, x]))
            if c.prim is not None:
                return self.contains(c.prim, x)
            return self.contains(PList(self.iterate(c)), x)
        if isinstance(c, Ref):
            if c.kind.contains is not None:
                return c.kind.contains(self, c, x)
            if c.kind.cls is not None:
                m = self.class_lookup(c.kind.cls, "__contains__")
                if isinstance(m, types.FunctionType):
                    return self.truth(self.call(m, [c, x]))
            return self.contains(PList(self.iterate(c)), x)
        if isinstance(c, (str, SStr)):
            px = x.prim if isinstance(x, Obj) else x
            if not isinstance(px, (str, SStr)):
                self.throw(TypeError, "'in <string>' requires string as left operand")
            return self.e.contains(c, px)
        if isinstance(c, PDict):
            if c.poison:
                raise CarriedRead("loop body reads a dictionary it also writes")
            for k, _ in c.entries:
                if self.truth(self.eq(k, x)):
                    return True
            return False
        if isinstance(c, PSet):
            return self.set_has(c, x)
        if isinstance(c, dict):
            if deep_concrete(x):
                return to_native(x) in c
            for k in c:
                if self.truth(self.eq(k, x)):
                    return True
            return False
        if isinstance(c, (PList, STuple, tuple, list, IterVal)):
            parts = self.iterate(c)
            r = self.search(parts, lambda v: self.truth(self.or_identical(v, x)))
            return r is not None
        if isinstance(c, Poison):
            raise CarriedRead("membership in loop-carried value")
        if c is None or isinstance(c, (int, SInt)):
            self.throw(TypeError, "not iterable")
        if is_native(c):
            if deep_concrete(x) and not isinstance(c, types.GeneratorType):
                h = self.native_methods.get((type(c), "__contains__"))
                if h:
                    return h(self, c, [x], {})
                return to_native(x) in c
            return self.contains(PList(self.iterate(c)), x)
        raise Unsupported("membership in %r" % (c,))

    def or_identical(self, v, x):
        if v is x:
            return True
        return self.eq(v, x)

    def search(self, parts, test):
        """First index (int or term) whose element satisfies test, else None. Adds universals/witnesses."""
        e = self.e
        off = z3.IntVal(0)
        for k, v in parts:
            if k == "i":
                if test(v):
                    return z3.simplify(off)
                off = off + 1
                continue
            if k == "b":
                n = v.n if not isinstance(v.n, int) else z3.IntVal(v.n)
                if e.entails(n == 0):
                    continue
                at = v.at
                fam = e.family(v.ident)
            else:
                n = v.n
                fam = v.family

                def at(j, v=v):
                    return v.emit(j)

            def hit(j, k=k, at=at):
                if k == "b":
                    return test(at(j))
                return self.search(at(j), test) is not None
            jmark = e.now()

            def none_at(j, hit=hit, jmark=jmark):
                def go():
                    if hit(j):
                        raise Infeasible()
                e.at_time(jmark, go)
            # is a hit feasible at all?
            def one():
                q = e.fresh_int("q")
                e.assume_checked(z3.And(q >= 0, q < n))
                return hit(q)
            outcomes = set(e.nested(one))
            if outcomes == {False} or not outcomes:
                e.add_universal(n, none_at, fam)
            elif e.choose(2, "search") == 0:
                e.add_universal(n, none_at, fam)
            else:
                q = e.fresh_int("hit")
                e.assume_checked(z3.And(q >= 0, q < n))
                e.add_universal(q, none_at, fam)
                if not hit(q):
                    raise Infeasible()
                e.add_witness(q, fam)
                if k == "f":
                    return ("flat", q)
                return z3.simplify(off + q)
            if k == "f":
                off = off + e.flat_len(v)
            else:
                off = off + n
        return None

    def ex_IfExp(self, x, fr):
        return self.ev(x.body if self.truth(self.ev(x.test, fr)) else x.orelse, fr)

    def ex_Lambda(self, x, fr):
        return Closure(x, fr, fr.globals, fr.clsname, [self.ev(d, fr) for d in x.args.defaults],
                       {k.arg: self.ev(d, fr) for k, d in zip(x.args.kwonlyargs, x.args.kw_defaults) if d is not None},
                       "<lambda>", fr.cell_class)

    def ex_JoinedStr(self, x, fr):
        out = []
        for v in x.values:
            if isinstance(v, ast.Constant):
                out.append(v.value)
            else:
                if v.format_spec is not None:
                    raise Unsupported("format spec")
                val = self.ev(v.value, fr)
                out.append(self.to_str(val) if v.conversion in (-1, 115) else SStr((self.e.fresh_str("repr"),)))
        return mkstr(out)

    def ex_FormattedValue(self, x, fr):
        return self.to_str(self.ev(x.value, fr))

    def ex_Starred(self, x, fr):
        raise Unsupported("starred expression")

    def ex_Yield(self, x, fr):
        f = fr.fn_frame()
        v = self.ev(x.value, fr) if x.value is not None else None
        self.append_part(f.emits, ("i", v))
        return None

    def ex_YieldFrom(self, x, fr):
        f = fr.fn_frame()
        parts = self.iterate(self.ev(x.value, fr))
        self.e.jset(f.emits, "parts", f.emits.parts + parts)
        return None

    def ex_ListComp(self, x, fr):
        return PList(self.comprehension(x.generators, lambda f: [("i", self.ev(x.elt, f))], fr, x))

    def ex_GeneratorExp(self, x, fr):
        return IterVal(self.comprehension(x.generators, lambda f: [("i", self.ev(x.elt, f))], fr, x))

    def ex_SetComp(self, x, fr):
        parts = self.comprehension(x.generators, lambda f: [("i", self.ev(x.elt, f))], fr, x)
        return self.mk_set(parts)

    def mk_set(self, parts):
        s = PSet()
        for k, v in parts:
            if k != "i":
                raise Unsupported("set of a symbolic sequence")
            if not self.set_has(s, v):
                s.items.append(v)
        return s

    def ex_DictComp(self, x, fr):
        parts = self.comprehension(x.generators, lambda f: [("i", (self.ev(x.key, f), self.ev(x.value, f)))], fr, x)
        return self.mk_dict(parts)

    def mk_dict(self, parts):
        d = PDict()
        for k, v in parts:
            if k != "i":
                raise Unsupported("dictionary built from a symbolic sequence")
            self.dict_set(d, v[0], v[1])
        return d

    def comprehension(self, gens, elt, fr, node):
        acc = PList()
        f = Frame(fr, fr.globals, fr.clsname, fr.cell_class, "<comp>")
        f.selfval = fr.selfval

        def run(i, f):
            if i == len(gens):
                for p in elt(f):
                    self.append_part(acc, p)
                return
            g = gens[i]
            parts = self.iterate(self.ev(g.iter, f))
            self.comp_for(parts, g, lambda f2: run(i + 1, f2), f)
        run(0, f)
        return acc.parts

    def comp_for(self, parts, g, inner, fr):
        def step(x, f):
            self.assign(g.target, x, f)
            for c in g.ifs:
                if not self.truth(self.ev(c, f)):
                    return None
            inner(f)
            return None
        names = _names_in_target(g.target)
        for k, v in parts:
            if k == "i":
                step(v, fr)
            elif k == "b":
                def runner(j, f, v=v):
                    return step(v.at(j), f)
                self.sym_loop(v.n, runner, fr, names, self.e.family(v.ident))
            else:
                def runner(j, f, v=v):
                    self.comp_for(v.emit(j), g, inner, f)
                    return None
                self.sym_loop(v.n, runner, fr, names, None)

    def ex_Call(self, x, fr):
        # zero-argument super()
        if isinstance(x.func, ast.Name) and x.func.id == "super" and "super" not in fr.env:
            if not x.args:
                f = fr.fn_frame()
                cell = f.cell_class
                owner = f.selfval.cls if isinstance(f.selfval, Obj) else (
                    f.selfval if isinstance(f.selfval, type) else self.type_of(f.selfval))
                return SuperVal(cell, f.selfval, owner)
            cls = self.ev(x.args[0], fr)
            s = self.ev(x.args[1], fr)
            owner = s if isinstance(s, type) else self.type_of(s)
            return SuperVal(cls, s, owner)
        func = self.ev(x.func, fr)
        args = []
        for a in x.args:
            if isinstance(a, ast.Starred):
                for k, v in self.iterate(self.ev(a.value, fr)):
                    if k != "i":
                        self.star_check(func)
                        args.append(Star((k, v)))
                        continue
                    args.append(v)
            else:
                args.append(self.ev(a, fr))
        kwargs = {}
        for k in x.keywords:
            if k.arg is None:
                for kk, vv in self.dict_items(self.ev(k.value, fr)):
                    if not isinstance(kk, str):
                        raise Unsupported("symbolic keyword name")
                    kwargs[kk] = vv
            else:
                kwargs[k.arg] = self.ev(k.value, fr)
        return self.call(func, args, kwargs)

    def star_check(self, f):
        """A symbolic number of arguments can only go to a function interpreted here."""
        if isinstance(f, BoundMethod):
            return self.star_check(f.func)
        if isinstance(f, type) and self._is_repo_class(f) and not any(c in self.class_models for c in f.__mro__):
            new = self.class_lookup(f, "__new__")
            new = new.__func__ if isinstance(new, staticmethod) else new
            if isinstance(self.class_lookup(f, "__init__"), types.FunctionType):
                raise Unsupported("call with a symbolic number of arguments")
            return self.star_check(new)
        try:
            known = f in self.contracts or f in self.models
        except TypeError:
            known = False
        if isinstance(f, Closure) or (isinstance(f, types.FunctionType) and not known
                                      and f.__code__.co_filename.startswith((self.REPO, self.SPEC))):
            return
        raise Unsupported("call with a symbolic number of arguments")

    def builtin_type(self, cls, args, kwargs):
        from . import builtin_models
        return builtin_models.builtin_type(self, cls, args, kwargs)

    def builtin_method(self, o, name, args, kwargs):
        from . import builtin_models
        return builtin_models.builtin_method(self, o, name, args, kwargs)


class Star(object):
    def __init__(self, part):
        self.part = part


from . import rdf_model  # noqa: E402


def _find_ite(t):
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
            inner = _find_ite(x.arg(0))
            return inner if inner is not None else x.arg(0)
        stack.extend(x.children())
    return None


def _is_generator(node):
    if not hasattr(node, "_is_gen"):
        found = False
        stack = list(node.body) if isinstance(node.body, list) else [node.body]
        while stack and not found:
            n = stack.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                found = True
            elif isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            stack.extend(ast.iter_child_nodes(n))
        node._is_gen = found
    return node._is_gen


def _assigned(stmts):
    out = set()
    aug = set()
    plain = set()
    stack = list(stmts)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            plain.add(n.name)
            continue
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for ch in ast.walk(n):
                if isinstance(ch, ast.NamedExpr):
                    plain.add(ch.target.id)
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            plain.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            plain.add(n.name)
        stack.extend(ast.iter_child_nodes(n))
    return plain


def _names_in_target(t):
    return {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}


def _target_names(node):
    if isinstance(node, ast.For):
        return _names_in_target(node.target)
    return set()


_NEGATED = {ast.Lt: ast.GtE, ast.GtE: ast.Lt, ast.Gt: ast.LtE, ast.LtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}


def _acc_step(st):
    """(name, kind, term) when the statement adds a term to a name, or takes the greater or lesser of the two."""
    if isinstance(st, ast.AugAssign) and isinstance(st.op, ast.Add) and isinstance(st.target, ast.Name):
        return st.target.id, "sum", st.value
    if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
        nm, v = st.targets[0].id, st.value
        if isinstance(v, ast.BinOp) and isinstance(v.op, ast.Add) and isinstance(v.left, ast.Name) and v.left.id == nm:
            return nm, "sum", v.right
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("max", "min") and len(v.args) == 2 and not v.keywords:
            for a, b in (v.args, v.args[::-1]):
                if isinstance(a, ast.Name) and a.id == nm:
                    return nm, v.func.id, b
    if isinstance(st, ast.If) and not st.orelse and len(st.body) == 1 and isinstance(st.test, ast.Compare) and len(st.test.ops) == 1:
        one = st.body[0]
        if isinstance(one, ast.Assign) and len(one.targets) == 1 and isinstance(one.targets[0], ast.Name) and isinstance(one.value, ast.Name):
            nm, x = one.targets[0].id, one.value.id
            left, op, right = st.test.left, st.test.ops[0], st.test.comparators[0]
            if isinstance(left, ast.Name) and isinstance(right, ast.Name) and {left.id, right.id} == {nm, x} and nm != x:
                if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                    up = isinstance(op, (ast.Gt, ast.GtE)) == (left.id == x)
                    return nm, "max" if up else "min", one.value
    return None


class _Steps(ast.NodeVisitor):
    def __init__(self):
        self.steps = {}
        self.other = set()

    def visit(self, n):
        got = _acc_step(n) if isinstance(n, ast.stmt) else None
        if got is not None:
            self.steps.setdefault(got[0], set()).add(got[1])
            self.visit(got[2])
            return
        if isinstance(n, ast.Name):
            self.other.add(n.id)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            self.other.update(n.names)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            self.other.add(n.name)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            self.other.add(n.name)
        self.generic_visit(n)


def _folds(s):
    w = _Steps()
    w.visit(s.target)
    for b in s.body:
        w.visit(b)
    return {nm: next(iter(kinds)) for nm, kinds in w.steps.items() if len(kinds) == 1 and nm not in w.other}


def _fold_body(s, folds):
    class To(ast.NodeTransformer):
        def visit(self, n):
            got = _acc_step(n) if isinstance(n, ast.stmt) else None
            if got is not None and got[0] in folds:
                call = ast.Call(ast.Attribute(ast.Name(got[0] + "#terms", ast.Load()), "append", ast.Load()), [self.visit(got[2])], [])
                return ast.fix_missing_locations(ast.copy_location(ast.Expr(call), n))
            return self.generic_visit(n)
    out = copy.copy(s)
    out.body = [To().visit(copy.deepcopy(b)) for b in s.body]
    return out


def _loop_reads(node):
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)} | \
        {n.target.id for n in ast.walk(node) if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name)}
