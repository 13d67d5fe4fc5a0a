"""Rules for Python's builtin functions, types and methods (the trusted semantics of the interpreter)."""
import abc
import collections
import copy
import functools
import inspect
import logging
import math
import re
import string
import types
import warnings

import z3

from .values import *
from .values import Heap
from .engine import CarriedRead
from . import interp as I


def map_parts(it, parts, fn):
    """Parts of [fn(x) for x in parts], lazily for symbolic sequences."""
    acc = PList()

    def run(parts, f):
        for k, v in parts:
            if k == "i":
                it.append_part(acc, ("i", fn(v)))
            elif k == "b":
                def runner(j, f, v=v):
                    it.append_part(acc, ("i", fn(v.at(j))))
                    return None
                it.sym_loop(v.n, runner, f, set(), it.e.family(v.ident))
            else:
                def runner(j, f, v=v):
                    run(v.emit(j), f)
                    return None
                it.sym_loop(v.n, runner, f, set(), None)
    run(list(parts), I.Frame(None, {}, None, None, "<map>"))
    return acc.parts


def filter_parts(it, parts, test):
    acc = PList()

    def run(parts, f):
        for k, v in parts:
            if k == "i":
                if test(v):
                    it.append_part(acc, ("i", v))
            elif k == "b":
                def runner(j, f, v=v):
                    x = v.at(j)
                    if test(x):
                        it.append_part(acc, ("i", x))
                    return None
                it.sym_loop(v.n, runner, f, set(), it.e.family(v.ident))
            else:
                def runner(j, f, v=v):
                    run(v.emit(j), f)
                    return None
                it.sym_loop(v.n, runner, f, set(), None)
    run(list(parts), I.Frame(None, {}, None, None, "<filter>"))
    return acc.parts


def enumerate_parts(it, parts, start=0):
    out = []
    off = iterm(start)
    for k, v in parts:
        if k == "i":
            out.append(("i", (mkint(off), v)))
            off = z3.simplify(off + 1)
        elif k == "b":
            n = v.n if not isinstance(v.n, int) else z3.IntVal(v.n)
            out.append(("b", Base(n, lambda j, v=v, off=off: (mkint(off + j), v.at(j)),
                                  ("map", ("#", it.e.family(v.ident)), "enum") if v.ident else None)))
            off = z3.simplify(off + n)
        else:
            # the number of elements before those of step j: some function with these bounds
            before = z3.Function(it.e.fresh_name("before"), z3.IntSort(), z3.IntSort())
            total = it.e.flat_len(v)

            def emit(j, v=v, off=off, before=before, total=total):
                parts = v.emit(j)
                j = z3.IntVal(j) if isinstance(j, int) else j
                b = before(j)
                it.e.fact(z3.And(b >= 0, b + iterm(it.e.seq_len(parts)) <= total, z3.Implies(j == 0, b == 0)))
                return enumerate_parts(it, parts, mkint(off + b))
            out.append(("f", Flat(v.n, emit, None, v.family)))
            off = z3.simplify(off + total)
    return out


def zip_parts(it, seqs):
    if all(all(k == "i" for k, _ in s) for s in seqs):
        return [("i", t) for t in zip(*[[v for _, v in s] for s in seqs])]
    seqs = [list(s) for s in seqs]
    out = []
    while all(seqs):
        heads = [s[0] for s in seqs]
        if any(k == "f" for k, _ in heads):
            raise Unsupported("zip of a filtered symbolic sequence")
        if all(k == "i" for k, _ in heads):
            out.append(("i", tuple(v for _, v in heads)))
            for s in seqs:
                s.pop(0)
            continue
        if all(k == "b" for k, _ in heads):
            n = heads[0][1].n
            if all(it.e.entails(h[1].n == n) for h in heads[1:]):
                vs = [h[1] for h in heads]
                out.append(("b", Base(n, lambda j, vs=vs: tuple(v.at(j) for v in vs),
                                      ("map", ("#", it.e.family(vs[0].ident)), "zip") if vs[0].ident else None)))
                for s in seqs:
                    s.pop(0)
                continue
        # peel one element of each symbolic head
        stop = False
        row = []
        for s in seqs:
            k, v = s[0]
            if k == "i":
                continue
            if not it.e.branch(v.n > 0 if not isinstance(v.n, int) else v.n > 0):
                s.pop(0)
                stop = True
                break
        if stop:
            continue
        for s in seqs:
            k, v = s.pop(0)
            if k == "i":
                row.append(v)
            else:
                row.append(v.at(z3.IntVal(0)))
                s.insert(0, ("b", it.e.slice_base(v, 1, v.n)))
        out.append(("i", tuple(row)))
        if len(out) > 40:
            raise Unsupported("zip of unaligned symbolic sequences")
    return out


# ---------------------------------------------------------------- builtin functions
def m_len(it, args, kw):
    (o,) = args
    return length(it, o)


def length(it, o):
    if isinstance(o, Obj):
        m = it.class_lookup(o.cls, "__len__")
        if isinstance(m, (types.FunctionType, Closure)):
            return it.call(m, [o])
        if o.prim is not None and not issubclass(o.cls, BaseException):
            return length(it, o.prim)
        it.throw(TypeError, "object of type %s has no len()" % o.cls.__name__)
    if isinstance(o, Ref):
        if o.kind.length is not None:
            return o.kind.length(it, o)
        if o.kind.cls is not None:
            m = it.class_lookup(o.kind.cls, "__len__")
            if isinstance(m, types.FunctionType):
                return it.call(m, [o])
        raise Unsupported("len of abstract %s" % o.kind.name)
    if isinstance(o, (PList, STuple)):
        it.check_poison(o)
        return it.e.seq_len(o.parts)
    if isinstance(o, PDict):
        if o.poison:
            raise CarriedRead("loop body reads a dictionary it also writes")
        return len(o.entries)
    if isinstance(o, PSet):
        return len(o.items)
    if isinstance(o, SStr):
        return mkint(z3.Sum([z3.IntVal(len(p)) if isinstance(p, str) else z3.Length(p) for p in o.pieces]))
    if isinstance(o, Poison):
        raise CarriedRead("len of loop-carried value %s" % o.name)
    if isinstance(o, Opaque):
        raise Unsupported("len of opaque %s" % o.name)
    if isinstance(o, (IterVal, SInt, SBool)) or o is None:
        it.throw(TypeError, "object has no len()")
    try:
        return len(o)
    except TypeError as E:
        it.throw(TypeError, str(E))


def m_isinstance(it, args, kw):
    return it.isinstance(args[0], args[1] if not isinstance(args[1], PList) else tuple(I.to_native(args[1])))


def m_issubclass(it, args, kw):
    return issubclass(args[0], args[1])


def m_getattr(it, args, kw):
    o, nm = args[0], args[1]
    if not isinstance(nm, str):
        raise Unsupported("getattr with a symbolic name")
    return it.getattr(o, nm, args[2] if len(args) > 2 else I.NOTFOUND)


def m_hasattr(it, args, kw):
    try:
        it._getattr(args[0], args[1])
        return True
    except Raise as r:
        if issubclass(r.exc.cls, AttributeError):
            return False
        raise


def m_setattr(it, args, kw):
    it.setattr(args[0], args[1], args[2])


def m_iter(it, args, kw):
    if len(args) != 1:
        raise Unsupported("iter with a sentinel")
    o = args[0]
    if isinstance(o, IterVal):
        return o
    return IterVal(it.iterate(o))


def take_first(it, parts):
    """(first element, remaining parts) of a sequence of parts, or None when it is empty. Forks."""
    parts = list(parts)
    while parts:
        k, v = parts[0]
        if k == "i":
            return v, parts[1:]
        n = v.n if not isinstance(v.n, int) else z3.IntVal(v.n)
        if k == "b":
            if it.e.branch(n > 0):
                return v.at(z3.IntVal(0)), [("b", it.e.slice_base(v, 1, n))] + parts[1:]
        else:
            q = it.search([(k, v)], lambda x: True)
            if q is not None:
                q = q[1]
                first, rest = take_first(it, v.emit(q))
                later = Flat(z3.simplify(n - q - 1), lambda j: v.emit(z3.simplify(j + q + 1)))
                return first, rest + [("f", later)] + parts[1:]
        parts = parts[1:]
    return None


def take_last(it, parts):
    """A one-tuple of the last element of a sequence of parts, or None when it is empty. Forks."""
    e = it.e
    for k, v in reversed(list(parts)):
        if k == "i":
            return (v,)
        n = v.n if not isinstance(v.n, int) else z3.IntVal(v.n)
        if k == "b":
            if e.branch(n > 0):
                return (v.at(z3.simplify(n - 1)),)
            continue
        jmark = e.now()

        def empty_at(j, v=v, jmark=jmark):
            def go():
                if it.search(v.emit(j), lambda x: True) is not None:
                    raise Infeasible()
            e.at_time(jmark, go)
        if e.choose(2, "last element") == 0:
            e.add_universal(n, empty_at, v.family)
            continue
        w = e.fresh_int("last")
        e.assume_checked(z3.And(w >= 0, w < n))
        r = take_last(it, v.emit(w))
        if r is None:
            raise Infeasible()

        def later(j, w=w, empty_at=empty_at):
            if e.branch(j > w):
                empty_at(j)
        e.add_universal(n, later, v.family)
        e.add_witness(w, v.family)
        return r
    return None


def m_next(it, args, kw):
    o = args[0]
    if isinstance(o, Obj):
        m = it.class_lookup(o.cls, "__next__")
        if isinstance(m, types.FunctionType):
            try:
                return it.call(m, [o])
            except Raise as r:
                if len(args) > 1 and issubclass(r.exc.cls, StopIteration):
                    return args[1]
                raise
        it.throw(TypeError, "not an iterator")
    if not isinstance(o, IterVal):
        if isinstance(o, Ref) and "__next__" in o.kind.methods:
            return o.kind.methods["__next__"](it, o, [], {})
        if isinstance(o, (PList, STuple, tuple, PDict, PSet, str, SStr)) or o is None:
            it.throw(TypeError, "not an iterator")
        raise Unsupported("next of %r" % (o,))
    parts = list(o.parts)
    while parts:
        k, v = parts[0]
        if k == "i":
            it.e.jset(o, "parts", parts[1:])
            return v
        if k == "b":
            n = v.n if not isinstance(v.n, int) else z3.IntVal(v.n)
            if it.e.branch(n > 0):
                it.e.jset(o, "parts", [("b", it.e.slice_base(v, 1, n))] + parts[1:])
                return v.at(z3.IntVal(0))
            parts = parts[1:]
            continue
        r = take_first(it, parts)
        if r is None:
            break
        it.e.jset(o, "parts", r[1])
        return r[0]
    it.e.jset(o, "parts", [])
    if len(args) > 1:
        return args[1]
    it.throw(StopIteration, "")


def m_any(it, args, kw):
    r = it.search(it.iterate(args[0]), lambda v: it.truth(v))
    return r is not None


def m_all(it, args, kw):
    r = it.search(it.iterate(args[0]), lambda v: not it.truth(v))
    return r is None


def m_sum(it, args, kw):
    total = z3.IntVal(0) if len(args) == 1 else None
    start = args[1] if len(args) > 1 else kw.get("start", 0)
    if not isinstance(start, (int, SInt)):
        acc = start
        for k, v in it.iterate(args[0]):
            if k != "i":
                raise Unsupported("sum of a symbolic sequence of non-integers")
            acc = it.binop(I.ast.Add(), acc, v)
        return acc
    total = iterm(start)
    sym = []
    for p in it.iterate(args[0]):
        if p[0] == "i":
            total = total + iterm(p[1])
        else:
            sym.append(p)
    if sym:
        rest, fixed = [], z3.IntVal(0)
        for k, v in sym:
            c = _fixed_term(it, v) if k == "b" else 0
            if c:
                fixed = fixed + c * v.n
                v = I.Base(v.n, lambda j, v=v, c=c: mkint(z3.simplify(iterm(v.at(j)) - c)), None)
            if k != "b" or not _always_zero(it, v):
                rest.append((k, v))
        total = total + fixed
        if rest:
            total = total + it.e.fold_memo("sum", rest, z3.IntSort())
    return mkint(total)


def _at_any(it, v, look):
    def one():
        j = it.e.fresh_int("sm")
        it.e.assume_checked(z3.And(j >= 0, j < v.n))
        try:
            x = v.at(j)
        except (I.Raise, Unsupported):
            return None
        if isinstance(x, bool) or not isinstance(x, (int, SInt)):
            return None
        return look(z3.simplify(iterm(x)))
    return it.e.nested(one)


def _fixed_term(it, v):
    """The constant that every element of a symbolic sequence of integers is the sum of, and of something else."""
    def look(t):
        if z3.is_int_value(t):
            return t.as_long()
        if z3.is_add(t):
            return sum(c.as_long() for c in t.children() if z3.is_int_value(c))
        return 0
    got = set(_at_any(it, v, look))
    return got.pop() if len(got) == 1 and None not in got else 0


def _always_zero(it, v):
    return all(_at_any(it, v, lambda t: z3.is_int_value(t) and t.as_long() == 0))


def _extreme(it, args, kw, greater):
    if "key" in kw:
        raise Unsupported("max/min with a key")
    if len(args) == 1:
        parts = it.iterate(args[0])
    else:
        parts = [("i", a) for a in args]
    if all(k == "i" for k, _ in parts) and all(I.deep_concrete(v) for _, v in parts):
        vs = [I.to_native(v) for _, v in parts]
        if not vs:
            if "default" in kw:
                return kw["default"]
            it.throw(ValueError, "empty sequence")
        return max(vs) if greater else min(vs)
    if it.e.branch(iterm(it.e.seq_len(parts)) == 0):
        if "default" in kw:
            return kw["default"]
        it.throw(ValueError, "max() arg is an empty sequence")
    op = "max" if greater else "min"
    best = None
    for k, v in parts:
        if k == "i":
            x = iterm(v)
        else:
            if not it.e.branch(v.n > 0):
                continue
            if k == "f" and len(parts) > 1:
                raise Unsupported("max/min over a mixed symbolic sequence")
            x = it.e.fold_memo(op, [(k, v)], z3.IntSort())

            # defining facts: a bound of every element, attained
            def runner(j, v=v, x=x, k=k):
                e = v.at(j) if k == "b" else None
                if e is None:
                    return
                t = iterm(e)
                it.e.assume(t <= x if greater else t >= x)
            if k == "b":
                it.e.add_universal(v.n, runner, it.e.family(v.ident))
                w = it.e.fresh_int("arg" + op)
                it.e.assume(z3.And(w >= 0, w < v.n))
                it.e.assume(iterm(v.at(w)) == x)
        best = x if best is None else z3.If(best >= x if greater else best <= x, best, x)
    return mkint(best)


def m_max(it, args, kw):
    return _extreme(it, args, kw, True)


def m_min(it, args, kw):
    return _extreme(it, args, kw, False)


def m_sorted(it, args, kw):
    parts = it.iterate(args[0])
    if all(k == "i" for k, _ in parts) and "key" not in kw and all(I.deep_concrete(v) for _, v in parts):
        return PList.of(sorted([I.to_native(v) for _, v in parts], reverse=bool(kw.get("reverse", False))))
    if all(k == "i" for k, _ in parts) and "key" in kw:
        vals = [v for _, v in parts]
        keys = [it.call(kw["key"], [v]) for v in vals]
        if all(I.deep_concrete(k) for k in keys):
            order = sorted(range(len(vals)), key=lambda i: I.to_native(keys[i]), reverse=bool(kw.get("reverse", False)))
            return PList.of([vals[i] for i in order])
    if all(k == "i" for k, _ in parts) and len(parts) <= 5:
        vals = [v for _, v in parts]
        key = kw.get("key")
        keyed = [(v if key is None else it.call(key, [v]), v) for v in vals]
        down = it.truth(kw.get("reverse", False))
        out = []
        for k, v in keyed:
            at = len(out)
            while at and it.truth(it.compare(I.ast.Lt(), out[at - 1][0], k) if down else it.compare(I.ast.Lt(), k, out[at - 1][0])):
                at -= 1
            out.insert(at, (k, v))
        return PList.of([v for _, v in out])
    raise Unsupported("sorted of a symbolic sequence")


def m_divmod(it, args, kw):
    a, b = args
    return (it.binop(I.ast.FloorDiv(), a, b), it.binop(I.ast.Mod(), a, b))


def m_print(it, args, kw):
    return None


def m_id(it, args, kw):
    o = args[0]
    if isinstance(o, Heap):
        return o.uid
    raise Unsupported("id()")


def m_callable(it, args, kw):
    o = args[0]
    if isinstance(o, (BoundMethod, BuiltinMethod, Closure, Native)):
        return True
    if isinstance(o, Obj):
        return it.class_lookup(o.cls, "__call__") is not I.NOTFOUND
    if isinstance(o, Ref):
        return "__call__" in o.kind.methods
    return I.is_native(o) and callable(o)


def m_ceil(it, args, kw):
    (x,) = args
    if isinstance(x, SReal):
        return mkint(-z3.ToInt(-x.t))
    if isinstance(x, SInt):
        return x
    if isinstance(x, (int, float)):
        return math.ceil(x)
    it.throw(TypeError, "must be real number")


def m_floor(it, args, kw):
    (x,) = args
    if isinstance(x, SReal):
        return mkint(z3.ToInt(x.t))
    if isinstance(x, SInt):
        return x
    return math.floor(x)


def m_abs(it, args, kw):
    (x,) = args
    if isinstance(x, SInt):
        return mkint(z3.If(x.t >= 0, x.t, -x.t))
    return abs(x)


def m_reduce(it, args, kw):
    f = args[0]
    parts = it.iterate(args[1])
    if any(k != "i" for k, _ in parts):
        raise Unsupported("reduce over a symbolic sequence")
    vals = [v for _, v in parts]
    if len(args) > 2:
        acc = args[2]
    else:
        if not vals:
            it.throw(TypeError, "reduce() of empty iterable with no initial value")
        acc = vals.pop(0)
    for v in vals:
        acc = it.call(f, [acc, v])
    return acc


def m_getmro(it, args, kw):
    return args[0].__mro__


def m_copy(it, args, kw):
    o = args[0]
    if isinstance(o, PList):
        return PList(o.parts)
    if isinstance(o, PDict):
        return PDict(o.entries, o.default)
    if isinstance(o, PSet):
        return PSet(o.items)
    if isinstance(o, Obj):
        m = it.class_lookup(o.cls, "__copy__")
        if isinstance(m, types.FunctionType):
            return it.call(m, [o])
        p = o.prim
        if isinstance(p, (PList, PDict, PSet)):
            p = m_copy(it, [p], {})
        return Obj(o.cls, dict(o.attrs), p)
    if isinstance(o, (SStr, SInt, SBool, STuple)) or o is None or isinstance(o, (str, int, tuple)):
        return o
    raise Unsupported("copy of %r" % (o,))


def m_deepcopy(it, args, kw):
    memo = {}

    def go(o):
        if isinstance(o, Heap) and o.uid in memo:
            return memo[o.uid]
        if isinstance(o, PList):
            n = PList()
            memo[o.uid] = n
            n.parts = [(k, go(v)) if k == "i" else (k, v) for k, v in it.parts_of(o)]
            if any(k != "i" for k, v in n.parts):
                raise Unsupported("deepcopy of a symbolic sequence")
            return n
        if isinstance(o, PDict):
            n = PDict(default=o.default)
            memo[o.uid] = n
            n.entries = [(go(a), go(b)) for a, b in o.entries]
            return n
        if isinstance(o, Obj):
            m = it.class_lookup(o.cls, "__deepcopy__")
            if isinstance(m, types.FunctionType):
                raise Unsupported("__deepcopy__")
            n = Obj(o.cls)
            memo[o.uid] = n
            n.prim = go(o.prim)
            n.attrs = {k: go(v) for k, v in o.attrs.items()}
            return n
        if isinstance(o, tuple):
            return tuple(go(x) for x in o)
        if isinstance(o, (Ref,)):
            raise Unsupported("deepcopy of abstract reference")
        return o
    return go(args[0])


def m_noop(it, args, kw):
    return None


def m_type(it, args, kw):
    if len(args) != 1:
        raise Unsupported("type() with three arguments")
    return it.type_of(args[0])


def m_repr(it, args, kw):
    o = args[0]
    if isinstance(o, Obj):
        m = it.class_lookup(o.cls, "__repr__")
        if isinstance(m, types.FunctionType):
            return it.call(m, [o])
    if I.deep_concrete(o):
        return repr(I.to_native(o))
    return SStr((it.e.fresh_str("repr"),))


def m_hash(it, args, kw):
    o = args[0]
    if isinstance(o, Obj):
        m = it.class_lookup(o.cls, "__hash__")
        if isinstance(m, types.FunctionType):
            return it.call(m, [o])
        if m is None:
            it.throw(TypeError, "unhashable type")
    raise Unsupported("hash")


def m_range(it, args):
    args = [a for a in args]
    if all(isinstance(a, int) for a in args):
        return range(*args)
    if len(args) == 1:
        lo, hi, step = 0, args[0], 1
    elif len(args) == 2:
        lo, hi, step = args[0], args[1], 1
    else:
        lo, hi, step = args
    for a in (lo, hi, step):
        if not isinstance(a, (int, SInt, bool, SBool)):
            it.throw(TypeError, "object cannot be interpreted as an integer")
    if step not in (1, -1):
        raise Unsupported("range with a symbolic step")
    lo_t, hi_t = iterm(lo), iterm(hi)
    if step == 1:
        n = z3.simplify(hi_t - lo_t)
        at = lambda j: mkint(lo_t + j)
    else:
        n = z3.simplify(lo_t - hi_t)
        at = lambda j: mkint(lo_t - j)
    if not it.e.branch(n > 0):
        return PList([])
    return PList([("b", Base(n, at, ("range", str(lo_t), str(hi_t), str(step))))])


def builtin_type(it, cls, args, kw):
    if cls is type:
        return m_type(it, args, kw)
    if cls is str:
        if not args:
            return ""
        return it.to_str(args[0])
    if cls is bool:
        if not args:
            return False
        v = args[0]
        if isinstance(v, SBool):
            return v
        return it.truth(v)
    if cls is int:
        if not args:
            return 0
        v = args[0]
        if isinstance(v, Obj):
            v = v.prim
        if isinstance(v, (SInt, SBool, bool, int)):
            return mkint(iterm(v))
        if isinstance(v, SReal):
            return mkint(z3.If(v.t >= 0, z3.ToInt(v.t), -z3.ToInt(-v.t)))
        if isinstance(v, SStr):
            it.e.trusted.add("int(str) as an uninterpreted function where it does not raise")
            ok = it.e.uf("int_ok", z3.StringSort(), z3.BoolSort())(v.t)
            val = it.e.uf("int_of", z3.StringSort(), z3.IntSort())(v.t)
            it.e.fact(z3.Implies(z3.Length(v.t) == 0, z3.Not(ok)))
            n = z3.StrToInt(v.t)
            it.e.fact(z3.Implies(n >= 0, z3.And(ok, val == n)))
            if not it.e.branch(ok):
                it.throw(ValueError, "invalid literal for int()")
            return mkint(val)
        if isinstance(v, (str, float)):
            try:
                return int(v, *args[1:])
            except Exception as E:
                it.throw(type(E), str(E))
        if v is None or isinstance(v, (PList, PDict, tuple)):
            it.throw(TypeError, "int() argument must be a string or a number")
        raise Unsupported("int(%r)" % (v,))
    if cls is float:
        v = args[0] if args else 0.0
        if isinstance(v, (SInt, SReal)):
            return SReal(it.real(v))
        return I.NOTFOUND
    if cls is list:
        return PList(it.iterate(args[0])) if args else PList()
    if cls is tuple:
        return it.mk_tuple(it.iterate(args[0])) if args else ()
    if cls in (set, frozenset):
        return it.mk_set(it.iterate(args[0])) if args else PSet()
    if cls in (dict, collections.OrderedDict):
        d = PDict()
        if args:
            src = args[0]
            if isinstance(src, (PDict, dict)) or isinstance(src, Obj) and isinstance(src.prim, PDict):
                for k, v in it.dict_items(src):
                    it.dict_set(d, k, v)
            elif isinstance(src, Ref) and "items" in src.kind.methods:
                for k, v in it.iterate(src.kind.methods["items"](it, src, [], {})):
                    if k != "i":
                        raise Unsupported("dict of an abstract mapping")
                    it.dict_set(d, v[0], v[1])
            else:
                for k, v in it.iterate(src):
                    if k != "i":
                        raise Unsupported("dictionary built from a symbolic sequence")
                    kk, vv = _pair(it, v)
                    it.dict_set(d, kk, vv)
        for k, v in kw.items():
            it.dict_set(d, k, v)
        return d
    if cls is collections.defaultdict:
        d = PDict(default=args[0] if args else None)
        if len(args) > 1:
            for k, v in it.dict_items(args[1]):
                it.dict_set(d, k, v)
        return d
    if cls is range:
        return m_range(it, args)
    if cls is enumerate:
        start = args[1] if len(args) > 1 else kw.get("start", 0)
        return IterVal(enumerate_parts(it, it.iterate(args[0]), start))
    if cls is zip:
        return IterVal(zip_parts(it, [it.iterate(a) for a in args]))
    if cls is map:
        if len(args) == 2:
            return IterVal(map_parts(it, it.iterate(args[1]), lambda x: it.call(args[0], [x])))
        return IterVal(map_parts(it, zip_parts(it, [it.iterate(a) for a in args[1:]]),
                                 lambda x: it.call(args[0], list(x))))
    if cls is filter:
        f = args[0]
        return IterVal(filter_parts(it, it.iterate(args[1]),
                                    lambda x: it.truth(x if f is None else it.call(f, [x]))))
    if cls is reversed:
        if isinstance(args[0], IterVal):
            it.throw(TypeError, "not reversible")
        return IterVal(it.reverse_parts(it.iterate(args[0])))
    if cls is object:
        return Obj(object)
    if cls is super:
        owner = args[1] if isinstance(args[1], type) else it.type_of(args[1])
        return SuperVal(args[0], args[1], owner)
    if cls is slice:
        return Slice(*([None, args[0], None] if len(args) == 1 else (list(args) + [None])[:3]))
    if cls is property:
        raise Unsupported("property()")
    return I.NOTFOUND


def _pair(it, v):
    ps = it.iterate(v)
    if any(k != "i" for k, _ in ps) or len(ps) != 2:
        raise Unsupported("dictionary update from a non-pair")
    return ps[0][1], ps[1][1]


# ---------------------------------------------------------------- methods of builtin types
def builtin_method(it, o, name, args, kw):
    if name == "__new__" and args and isinstance(args[0], type):
        return new_instance(it, args[0], args[1:], kw)
    p = o
    if isinstance(o, Obj) and not issubclass(o.cls, BaseException):
        if name == "__init__":
            if isinstance(o.prim, PDict) and (args or kw):
                method_dict(it, o.prim, "update", args, kw, o)
            elif isinstance(o.prim, PList) and args:
                it.e.jset(o.prim, "parts", it.iterate(args[0]))
            return None
        if name == "__setattr__":
            new = dict(o.attrs)
            new[args[0]] = args[1]
            it.e.jset(o, "attrs", new)
            return None
        if name == "__getattribute__":
            return it._getattr(o, args[0])
        if name == "__eq__":
            if o.prim is None:
                return True if o is args[0] else NotImplemented
            a = args[0]
            ap = a.prim if isinstance(a, Obj) else a
            if not _same_builtin(o.prim, ap):
                return NotImplemented
            return it.raw_eq(o, a)
        if name == "__ne__":
            r = builtin_method(it, o, "__eq__", args, kw)
            return r if r is NotImplemented else it.negate(r)
        if name == "__hash__":
            return SInt(it.e.fresh_int("hash"))
        if name == "__str__" and o.prim is not None and isinstance(o.prim, (str, SStr)):
            return o.prim
        if name in ("__repr__", "__str__"):
            return SStr((it.e.fresh_str("repr"),))
        if name == "__reduce__" or name == "__getnewargs__":
            raise Unsupported("pickling")
        p = o.prim
        if p is None:
            raise Unsupported("object.%s on %r" % (name, o))
    elif isinstance(o, Obj):
        if name == "__init__":
            it.e.jset(o, "prim", tuple(args))
            return None
        if name == "__str__":
            return it.to_str(o.prim[0]) if o.prim else ""
        raise Unsupported("exception method %s" % name)
    if name == "__init_subclass__":
        return None
    if isinstance(p, (str, SStr)):
        return method_str(it, p, name, args, kw)
    if isinstance(p, PList):
        return method_list(it, p, name, args, kw)
    if isinstance(p, (tuple, STuple)):
        return method_tuple(it, p, name, args, kw)
    if isinstance(p, PDict):
        return method_dict(it, p, name, args, kw, o)
    if isinstance(p, PSet):
        return method_set(it, p, name, args, kw)
    if isinstance(p, IterVal):
        if name == "__next__":
            return m_next(it, [p], {})
        if name == "__iter__":
            return p
        if name == "close":
            return None
    if isinstance(p, type):
        if name == "mro":
            return PList.of(list(p.__mro__))
        if name == "__subclasses__":
            return PList.of(p.__subclasses__())
        if name == "__call__":
            return it.instantiate(p, args, kw)
    if isinstance(p, (int, float, bool)) or p is None:
        try:
            if all(I.deep_concrete(a) for a in args):
                return I.from_native(getattr(p, name)(*[I.to_native(a) for a in args]))
        except Exception as E:
            it.throw(type(E), str(E))
    raise Unsupported("method %s of %r" % (name, p))


def _same_builtin(a, b):
    groups = [(str, SStr), (tuple, STuple), (PList, list), (PDict, dict), (PSet, set)]
    return any(isinstance(a, g) and isinstance(b, g) for g in groups)


def new_instance(it, cls, args, kw):
    if issubclass(cls, str):
        v = it.to_str(args[0]) if args else ""
        return v if cls is str else Obj(cls, prim=v)
    if issubclass(cls, tuple):
        if hasattr(cls, "_fields") and len(args) == len(cls._fields) != 1:
            return Obj(cls, prim=tuple(args))
        v = it.mk_tuple(it.iterate(args[0])) if args else ()
        return v if cls is tuple else Obj(cls, prim=v)
    if issubclass(cls, dict):
        return Obj(cls, prim=PDict())
    if issubclass(cls, list):
        return Obj(cls, prim=PList())
    if issubclass(cls, BaseException):
        return Obj(cls, {}, prim=tuple(args))
    if issubclass(cls, (int, float, set)):
        raise Unsupported("__new__ of %s" % cls)
    return Obj(cls)


UF_BOOL = ("isdigit", "isalpha", "isalnum", "isspace", "isupper", "islower", "isnumeric", "isidentifier")
UF_STR = ("lower", "upper", "title", "capitalize", "strip", "lstrip", "rstrip", "casefold", "swapcase")


def _p(v):
    if isinstance(v, Obj) and isinstance(v.prim, (str, SStr)):
        return v.prim
    return v


def method_str(it, s, name, args, kw):
    e = it.e
    args = [_p(a) for a in args]
    if name == "join":
        parts = [(k, _p(v) if k == "i" else v) for k, v in it.iterate(args[0])]
        for k, v in parts:
            if k == "i" and not isinstance(v, (str, SStr)):
                if isinstance(v, (Poison, Opaque, Ref)):
                    raise Unsupported("join of %r" % (v,))
                it.throw(TypeError, "sequence item: expected str instance")
        return e.join(s, parts)
    if name == "format":
        return str_format(it, s, args, kw)
    if name in ("__str__",):
        return s
    if name == "__eq__":
        if not isinstance(args[0], (str, SStr)):
            return NotImplemented
        return e.str_eq(s, args[0])
    if name == "__ne__":
        if not isinstance(args[0], (str, SStr)):
            return NotImplemented
        return it.negate(e.str_eq(s, args[0]))
    if name == "__len__":
        return length(it, s)
    if name == "__contains__":
        return e.contains(s, args[0])
    if name == "__add__":
        return mkstr((s, args[0]))
    if name == "__getitem__":
        return it.str_getitem(s, args[0])
    if name == "__iter__":
        return IterVal(it.iterate(s))
    if name == "__hash__":
        f = e.uf("strhash", z3.StringSort(), z3.IntSort())
        return mkint(f(sterm(s)))
    if name == "__new__":
        return args[0]
    if isinstance(s, str) and all(I.deep_concrete(a) for a in args) and all(I.deep_concrete(v) for v in kw.values()):
        m = getattr(s, name, None)
        if m is None:
            it.throw(AttributeError, name)
        try:
            return I.from_native(m(*[I.to_native(a) for a in args], **{k: I.to_native(v) for k, v in kw.items()}))
        except Exception as E:
            it.throw(type(E), str(E))
    for a in args:
        if a is None and name in ("startswith", "endswith", "replace", "count", "find"):
            it.throw(TypeError, "must be str, not None")
    if name in ("split", "rsplit"):
        sep = args[0] if args else kw.get("sep")
        mx = args[1] if len(args) > 1 else kw.get("maxsplit", -1)
        if not isinstance(sep, str):
            raise Unsupported("split on whitespace or a symbolic separator")
        parts = e.split(s, sep)
        if mx == -1:
            return PList(parts)
        if not isinstance(mx, int):
            raise Unsupported("split with a symbolic maxsplit")
        n = iterm(e.seq_len(parts))
        if e.branch(n <= mx + 1):
            return PList(parts)
        if name == "split":
            head = it.slice_parts(parts, 0, mx)
            tail = it.slice_parts(parts, mx, n)
            return PList(head + [("i", e.join(sep, tail))])
        head = it.slice_parts(parts, 0, z3.simplify(n - mx))
        tail = it.slice_parts(parts, z3.simplify(n - mx), n)
        return PList([("i", e.join(sep, head))] + tail)
    if name in ("partition", "rpartition"):
        sep = args[0]
        r = method_str(it, s, "split" if name == "partition" else "rsplit", [sep, 1], {})
        ps = r.parts
        if e.branch(iterm(e.seq_len(ps)) == 1):
            return (s, "", "") if name == "partition" else ("", "", s)
        return (it.index_parts(ps, 0), sep, it.index_parts(ps, 1))
    if name in ("startswith", "endswith"):
        if len(args) != 1:
            raise Unsupported("startswith with bounds")
        pre = args[0]
        if isinstance(pre, tuple):
            return any(it.truth(method_str(it, s, name, [x], {})) for x in pre)
        if not isinstance(pre, (str, SStr)):
            it.throw(TypeError, "first arg must be str")
        return prefix_test(it, s, pre, name == "startswith")
    if name == "count":
        if len(args) == 1 and isinstance(args[0], str) and len(args[0]) == 1:
            return e.count_char(s, args[0])
        f = e.uf("countstr", z3.StringSort(), z3.StringSort(), z3.IntSort())(sterm(s), sterm(args[0]))
        e.fact(f >= 0)
        e.fact((f == 0) == z3.Not(z3.Contains(sterm(s), sterm(args[0]))))
        return mkint(f)
    if name in ("find", "index"):
        start = iterm(args[1]) if len(args) > 1 else z3.IntVal(0)
        t = rope_find(it, s, args[0]) if len(args) == 1 else None
        if t is None:
            t = z3.IndexOf(sterm(s), sterm(args[0]), start)
        if name == "index" and e.branch(t < 0):
            it.throw(ValueError, "substring not found")
        return mkint(t)
    if name == "replace":
        return str_replace(it, s, args[0], args[1]) if len(args) == 2 else str_replace_n(it, s, *args)
    if name in UF_BOOL:
        return mkbool(e.uf("str_" + name, z3.StringSort(), z3.BoolSort())(sterm(s)))
    if name in UF_STR:
        a = "".join("_%x" % ord(c) for c in (args[0] if args else ""))
        t = e.uf("str_" + name + a, z3.StringSort(), z3.StringSort())(sterm(s))
        e.trusted.add("str.%s as an uninterpreted function" % name)
        return SStr((t,))
    if name == "encode":
        return s
    raise Unsupported("str.%s on a symbolic string" % name)


def rope_find(it, s, c):
    """Position of a character that occurs in a literal piece before any piece that might contain it, or -1."""
    if not isinstance(c, str) or len(c) != 1 or not isinstance(s, SStr):
        return None
    off = z3.IntVal(0)
    for p in s.pieces:
        if isinstance(p, str):
            if c in p:
                return z3.simplify(off + p.index(c))
            off = off + len(p)
        elif it.e.lacks(p, c):
            off = off + z3.Length(p)
        else:
            return None
    return z3.IntVal(-1)


def prefix_test(it, s, pre, front):
    e = it.e
    ps = list(s.pieces) if isinstance(s, SStr) else [s]
    qs = list(pre.pieces) if isinstance(pre, SStr) else ([pre] if pre else [])
    ix = 0 if front else -1
    while qs and ps:
        x, y = ps[ix], qs[ix]
        if isinstance(x, str) and isinstance(y, str):
            m = min(len(x), len(y))
            if front:
                if x[:m] != y[:m]:
                    return False
                rx, ry = x[m:], y[m:]
            else:
                if x[len(x) - m:] != y[len(y) - m:]:
                    return False
                rx, ry = x[:len(x) - m], y[:len(y) - m]
            for lst, r in ((ps, rx), (qs, ry)):
                if r == "":
                    lst.pop(ix)
                else:
                    lst[ix] = r
        elif not isinstance(x, str) and not isinstance(y, str) and x.eq(y):
            ps.pop(ix)
            qs.pop(ix)
        else:
            break
    if not qs:
        return True
    f = z3.PrefixOf if front else z3.SuffixOf
    return mkbool(f(sterm(mkstr(qs)), sterm(mkstr(ps))))


def str_replace(it, s, old, new):
    e = it.e
    if not isinstance(old, str):
        t = e.uf("replace_all", z3.StringSort(), z3.StringSort(), z3.StringSort(), z3.StringSort())
        r = t(sterm(s), sterm(old), sterm(new))
        e.fact(z3.Implies(z3.And(z3.Not(z3.Contains(sterm(s), sterm(old))), z3.Length(sterm(old)) > 0), r == sterm(s)))
        return SStr((r,))
    pieces = list(s.pieces) if isinstance(s, SStr) else [s]
    if len(old) == 1:
        out = []
        for p in pieces:
            if isinstance(p, str):
                segs = p.split(old)
                for i, g in enumerate(segs):
                    if i:
                        out.append(new)
                    out.append(g)
            elif e.lacks(p, old):
                out.append(p)
            else:
                out.append(_replace_atom(it, p, old, new))
        return mkstr(out)
    if all(isinstance(p, str) or any(e.lacks(p, c) for c in (old[0],)) and e.lacks(p, old[-1])
           and all(e.lacks(p, c) for c in old) for p in pieces):
        return mkstr([new_join(p, old, new) if isinstance(p, str) else p for p in pieces])
    return SStr((_replace_atom(it, sterm(s), old, new),)) if True else None


def new_join(p, old, new):
    out = []
    for i, g in enumerate(p.split(old)):
        if i:
            out.append(new)
        out.append(g)
    return mkstr(out)


def _replace_atom(it, t, old, new):
    e = it.e
    f = e.uf("replace_all", z3.StringSort(), z3.StringSort(), z3.StringSort(), z3.StringSort())
    r = f(t, z3.StringVal(old), sterm(new))
    e.trusted.add("str.replace as an uninterpreted function (identity when the pattern is absent)")
    e.fact(z3.Implies(z3.Not(z3.Contains(t, z3.StringVal(old))), r == t))
    return r


def str_replace_n(it, s, old, new, count):
    if count == 1:
        return SStr((z3.Replace(sterm(s), sterm(old), sterm(new)),))
    raise Unsupported("replace with a count")


def str_format(it, s, args, kw):
    if not isinstance(s, str):
        raise Unsupported("format of a symbolic format string")
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        out.append(lit)
        if field is None:
            continue
        if spec:
            raise Unsupported("format spec %r" % spec)
        first, rest = _fmt_field(field)
        if first == "":
            if auto >= len(args):
                it.throw(IndexError, "Replacement index out of range")
            v = args[auto]
            auto += 1
        elif first.isdigit():
            if int(first) >= len(args):
                it.throw(IndexError, "Replacement index out of range")
            v = args[int(first)]
        else:
            if first not in kw:
                it.throw(KeyError, first)
            v = kw[first]
        for is_attr, nm in rest:
            v = it.getattr(v, nm) if is_attr else it.getitem(v, nm)
        if conv == "r":
            v = m_repr(it, [v], {})
        out.append(it.to_str(v))
    return mkstr(out)


def _fmt_field(field):
    first, rest = string._string.formatter_field_name_split(field)
    return str(first), [(a, n) for a, n in rest]


def method_list(it, l, name, args, kw):
    e = it.e
    it.check_poison(l) if name not in ("append", "extend") else None
    if name == "append":
        e.jset(l, "parts", l.parts + [("i", args[0])])
        return None
    if name == "extend":
        e.jset(l, "parts", l.parts + it.iterate(args[0]))
        return None
    if name == "__iadd__":
        e.jset(l, "parts", l.parts + it.iterate(args[0]))
        return l
    if name in ("__iter__",):
        return IterVal(l.parts)
    if name == "__len__":
        return e.seq_len(l.parts)
    if name == "__getitem__":
        return it.getitem_prim(l, args[0], l)
    if name == "__setitem__":
        it.setitem(l, args[0], args[1])
        return None
    if name == "__contains__":
        return it.contains(l, args[0])
    if name == "__eq__":
        return it.raw_eq(l, args[0])
    if name == "copy":
        return PList(l.parts)
    if name == "clear":
        e.jset(l, "parts", [])
        return None
    if name == "reverse":
        e.jset(l, "parts", it.reverse_parts(l.parts))
        return None
    if name == "index":
        return seq_index(it, l.parts, args)
    if name == "count":
        return seq_count(it, l.parts, args)
    if name == "pop":
        i = args[0] if args else -1
        parts = list(l.parts)
        if not parts:
            it.throw(IndexError, "pop from empty list")
        if all(k == "i" for k, _ in parts) and isinstance(i, int):
            if not -len(parts) <= i < len(parts):
                it.throw(IndexError, "pop index out of range")
            v = parts.pop(i)[1]
            e.jset(l, "parts", parts)
            return v
        v = it.getitem_prim(l, i, l)
        n = iterm(e.seq_len(parts))
        at = iterm(i)
        if e.branch(at < 0):
            at = z3.simplify(at + n)
        e.jset(l, "parts", it.slice_parts(parts, 0, at) + it.slice_parts(parts, z3.simplify(at + 1), n))
        return v
    if name == "insert":
        i = args[0]
        if isinstance(i, int) and i == 0:
            e.jset(l, "parts", [("i", args[1])] + l.parts)
            return None
        if isinstance(i, int) and all(k == "i" for k, _ in l.parts):
            ps = list(l.parts)
            ps.insert(i, ("i", args[1]))
            e.jset(l, "parts", ps)
            return None
        n = e.seq_len(l.parts)
        at = it.clip_index(i, n, None)
        e.jset(l, "parts", it.slice_parts(l.parts, 0, at) + [("i", args[1])] + it.slice_parts(l.parts, at, iterm(n)))
        return None
    if name == "remove":
        if all(k == "i" for k, _ in l.parts):
            for idx, (_, v) in enumerate(l.parts):
                if it.truth(it.or_identical(v, args[0])):
                    e.jset(l, "parts", l.parts[:idx] + l.parts[idx + 1:])
                    return None
            it.throw(ValueError, "list.remove(x): x not in list")
        q = it.search(l.parts, lambda v: it.truth(it.or_identical(v, args[0])))
        if q is None:
            it.throw(ValueError, "list.remove(x): x not in list")
        n = iterm(e.seq_len(l.parts))
        e.jset(l, "parts", it.slice_parts(l.parts, 0, q) + it.slice_parts(l.parts, z3.simplify(q + 1), n))
        return None
    if name == "sort":
        r = m_sorted(it, [l], kw)
        e.jset(l, "parts", r.parts)
        return None
    raise Unsupported("list.%s" % name)


def seq_index(it, parts, args):
    if len(args) > 1:
        raise Unsupported("index with bounds")
    q = it.search(parts, lambda v: it.truth(it.or_identical(v, args[0])))
    if q is None:
        it.throw(ValueError, "x not in sequence")
    if isinstance(q, tuple):
        raise Unsupported("index in a filtered symbolic sequence")
    return mkint(q)


def seq_count(it, parts, args):
    if all(k == "i" for k, _ in parts):
        return sum(1 for _, v in parts if it.truth(it.or_identical(v, args[0])))
    r = filter_parts(it, parts, lambda v: it.truth(it.or_identical(v, args[0])))
    return it.e.seq_len(r)


def method_tuple(it, t, name, args, kw):
    parts = it.parts_of(t)
    if name == "index":
        return seq_index(it, parts, args)
    if name == "count":
        return seq_count(it, parts, args)
    if name == "__contains__":
        return it.contains(t, args[0])
    if name == "__iter__":
        return IterVal(parts)
    if name == "__len__":
        return it.e.seq_len(parts)
    if name == "__getitem__":
        return it.getitem_prim(t, args[0], t)
    if name in ("__eq__", "__ne__"):
        a = args[0]
        ap = a.prim if isinstance(a, Obj) else a
        if not isinstance(ap, (tuple, STuple)):
            return NotImplemented
        r = it.raw_eq(t, a)
        return r if name == "__eq__" else it.negate(r)
    if name == "__add__":
        return it.mk_tuple(list(parts) + list(it.parts_of(args[0])))
    if name == "__hash__":
        return SInt(it.e.fresh_int("hash"))
    if name == "_asdict":
        raise Unsupported("_asdict")
    raise Unsupported("tuple.%s" % name)


def method_dict(it, d, name, args, kw, owner=None):
    e = it.e
    if d.poison:
        raise CarriedRead("loop body uses a dictionary it also writes")

    def lookup(k):
        for k2, v in d.entries:
            if it.truth(it.eq(k2, k)):
                return (v,)
        return None
    if name == "get":
        r = lookup(args[0])
        return r[0] if r else (args[1] if len(args) > 1 else kw.get("default"))
    if name in ("items",):
        return IterView([("i", (k, v)) for k, v in d.entries])
    if name in ("keys", "__iter__"):
        return IterView([("i", k) for k, v in d.entries])
    if name == "values":
        return IterView([("i", v) for k, v in d.entries])
    if name == "update":
        src = args[0] if args else None
        if src is not None:
            if isinstance(src, (PDict, dict)) or isinstance(src, Obj) and isinstance(src.prim, PDict):
                for k, v in it.dict_items(src):
                    it.dict_set(d, k, v)
            else:
                for k, v in it.iterate(src):
                    if k != "i":
                        raise Unsupported("dict.update from a symbolic sequence")
                    kk, vv = _pair(it, v)
                    it.dict_set(d, kk, vv)
        for k, v in kw.items():
            it.dict_set(d, k, v)
        return None
    if name == "setdefault":
        r = lookup(args[0])
        if r:
            return r[0]
        v = args[1] if len(args) > 1 else None
        it.dict_set(d, args[0], v)
        return v
    if name == "pop":
        r = lookup(args[0])
        if r is None:
            if len(args) > 1:
                return args[1]
            it.throw(KeyError, args[0])
        it.delitem(d, args[0])
        return r[0]
    if name == "copy":
        return PDict(d.entries, d.default)
    if name == "clear":
        e.jset(d, "entries", [])
        return None
    if name == "__getitem__":
        return it.getitem_prim(d, args[0], owner if owner is not None else d)
    if name == "__setitem__":
        it.dict_set(d, args[0], args[1])
        return None
    if name == "__delitem__":
        it.delitem(d, args[0])
        return None
    if name == "__contains__":
        return lookup(args[0]) is not None
    if name == "__len__":
        return len(d.entries)
    if name == "__eq__":
        return it.raw_eq(d, args[0])
    if name == "fromkeys":
        raise Unsupported("dict.fromkeys")
    raise Unsupported("dict.%s" % name)


def IterView(parts):
    return PList(parts)


def method_set(it, s, name, args, kw):
    e = it.e
    if s.poison:
        raise CarriedRead("loop body uses a set it also writes")

    def elems(x):
        ps = it.iterate(x)
        if any(k != "i" for k, _ in ps):
            raise Unsupported("set operation with a symbolic sequence")
        return [v for _, v in ps]
    if name == "add":
        v = args[0]
        if isinstance(v, (PList, PDict, PSet)):
            it.throw(TypeError, "unhashable type")
        if not it.set_has(s, v):
            e.jset(s, "items", s.items + [v])
        return None
    if name in ("discard", "remove"):
        for i, y in enumerate(s.items):
            if it.truth(it.eq(y, args[0])):
                e.jset(s, "items", s.items[:i] + s.items[i + 1:])
                return None
        if name == "remove":
            it.throw(KeyError, args[0])
        return None
    if name == "update":
        for a in args:
            for v in elems(a):
                if not it.set_has(s, v):
                    e.jset(s, "items", s.items + [v])
        return None
    if name in ("union", "__or__"):
        r = PSet(s.items)
        for a in args:
            for v in elems(a):
                if not it.set_has(r, v):
                    r.items.append(v)
        return r
    if name in ("difference", "__sub__"):
        o = PSet([v for a in args for v in elems(a)])
        return PSet([v for v in s.items if not it.set_has(o, v)])
    if name in ("intersection", "__and__"):
        o = PSet([v for a in args for v in elems(a)])
        return PSet([v for v in s.items if it.set_has(o, v)])
    if name in ("issubset", "issuperset"):
        o = PSet([v for v in elems(args[0])])
        a, b = (s, o) if name == "issubset" else (o, s)
        return all(it.set_has(b, v) for v in a.items)
    if name == "isdisjoint":
        return not any(it.set_has(s, v) for v in elems(args[0]))
    if name in ("symmetric_difference", "__xor__"):
        o = PSet([v for v in elems(args[0])])
        return PSet([v for v in s.items if not it.set_has(o, v)] + [v for v in o.items if not it.set_has(s, v)])
    if name == "__contains__":
        return it.set_has(s, args[0])
    if name == "__len__":
        return len(s.items)
    if name == "__iter__":
        return IterVal([("i", v) for v in s.items])
    if name == "copy":
        return PSet(s.items)
    if name == "clear":
        e.jset(s, "items", [])
        return None
    if name == "pop":
        if not s.items:
            it.throw(KeyError, "pop from an empty set")
        raise Unsupported("set.pop (arbitrary element)")
    raise Unsupported("set.%s" % name)


# ---------------------------------------------------------------- regular expressions
def _pat(p):
    return p if isinstance(p, re.Pattern) else re.compile(p)


def group_classes(pat):
    """Groups of the pattern that can only match digits (possibly none)."""
    try:
        import re._parser as sp
    except ImportError:
        import sre_parse as sp
    C = sp
    out = set()

    def digits(items):
        for op, av in items:
            op = str(op)
            if op in ("MAX_REPEAT", "MIN_REPEAT"):
                if not digits(av[2]):
                    return False
            elif op == "IN":
                for o, a in av:
                    if not (str(o) == "RANGE" and 48 <= a[0] and a[1] <= 57 or str(o) == "LITERAL" and 48 <= a <= 57):
                        return False
            elif op == "LITERAL":
                if not 48 <= av <= 57:
                    return False
            else:
                return False
        return True

    def walk(items):
        for op, av in items:
            nm = str(op)
            if nm == "SUBPATTERN":
                if av[0] is not None and digits(av[3]):
                    out.add(av[0])
                walk(av[3])
            elif nm in ("MAX_REPEAT", "MIN_REPEAT"):
                walk(av[2])
            elif nm == "BRANCH":
                for b in av[1]:
                    walk(b)
    walk(C.parse(pat.pattern, pat.flags))
    return out


def digit_fact(it, t):
    """A non-empty string of ASCII digits is accepted by int()."""
    ok = it.e.uf("int_ok", z3.StringSort(), z3.BoolSort())(t)
    val = it.e.uf("int_of", z3.StringSort(), z3.IntSort())(t)
    it.e.fact(z3.Implies(z3.Length(t) > 0, z3.And(ok, val >= 0)))


def re_key(pat):
    return "re<%s>%d" % (pat.pattern, pat.flags)


def re_findall(it, pat, s):
    """findall of a symbolic string: an uninterpreted sequence of uninterpreted group tuples (trusted)."""
    e = it.e
    s = _p(s)
    if isinstance(s, str):
        return I.from_native(pat.findall(s))
    if not isinstance(s, SStr):
        it.throw(TypeError, "expected string or bytes-like object")
    e.trusted.add("re findall(%r): uninterpreted function of the subject string" % pat.pattern)
    key = re_key(pat)
    t = s.t
    n = e.uf(key + ".n", z3.StringSort(), z3.IntSort())(t)
    e.fact(n >= 0)
    if pat.match("") is not None:
        e.fact(n >= 1)
    g = max(pat.groups, 1)
    fs = [e.uf(key + ".g%d" % i, z3.StringSort(), z3.IntSort(), z3.StringSort()) for i in range(g)]

    dg = group_classes(pat)

    def at(j):
        for i in dg:
            digit_fact(it, fs[i - 1](t, j))
        vals = tuple(SStr((f(t, j),)) for f in fs)
        return vals if pat.groups > 1 else vals[0]
    return PList([("b", Base(n, at, ("findall", key, t.get_id())))])


def re_match_obj(it, pat, s, how):
    e = it.e
    s = _p(s)
    if not isinstance(s, (str, SStr)):
        it.throw(TypeError, "expected string or bytes-like object")
    if isinstance(s, str):
        m = getattr(pat, how)(s)
        if m is None:
            return None
        return Native_match(it, {i: m.group(i) for i in range(pat.groups + 1)}, pat)
    e.trusted.add("re %s(%r): uninterpreted function of the subject string" % (how, pat.pattern))
    key = re_key(pat) + "." + how
    ok = e.uf(key, z3.StringSort(), z3.BoolSort())(s.t)
    if not e.branch(ok):
        return None
    groups = {}
    for i in range(pat.groups + 1):
        groups[i] = SStr((e.uf("%s.%d" % (key, i), z3.StringSort(), z3.StringSort())(s.t),))
    return Native_match(it, groups, pat)


class _Match(object):
    pass


def Native_match(it, groups, pat):
    o = Obj(_Match)

    def group(it, args, kw):
        if not args:
            return groups[0]
        r = tuple(groups[pat.groupindex[a] if isinstance(a, str) else a] for a in args)
        return r[0] if len(r) == 1 else r
    o.attrs = {"group": Native(group, "group"),
               "groups": Native(lambda it, a, k: tuple(groups[i] for i in range(1, pat.groups + 1)), "groups"),
               "groupdict": Native(lambda it, a, k: PDict([(n, groups[i]) for n, i in pat.groupindex.items()]))}
    return o


def re_split(it, pat, s):
    e = it.e
    s = _p(s)
    if isinstance(s, str):
        return I.from_native(pat.split(s))
    e.trusted.add("re split(%r): uninterpreted function of the subject string" % pat.pattern)
    key = re_key(pat) + ".split"
    n = e.uf(key + ".n", z3.StringSort(), z3.IntSort())(s.t)
    f = e.uf(key + ".at", z3.StringSort(), z3.IntSort(), z3.StringSort())
    e.fact(n >= 1)
    return PList([("b", Base(n, lambda j: SStr((f(s.t, j),)), ("resplit", key, s.t.get_id())))])


def re_sub(it, pat, repl, s, count=0):
    """Substitution: gap(0) r(m0) gap(1) r(m1) ... gap(n), the matches being those of findall (trusted)."""
    e = it.e
    s = _p(s)
    repl = _p(repl)
    if isinstance(s, str) and isinstance(repl, str):
        return pat.sub(repl, s, count)
    if count:
        raise Unsupported("re.sub with a count")
    if isinstance(s, str):
        out = []
        pos = 0
        for m in pat.finditer(s):
            out.append(s[pos:m.start()])
            mo = Native_match(it, {i: m.group(i) for i in range(pat.groups + 1)}, pat)
            r = repl if isinstance(repl, SStr) else it.call(repl, [mo])
            out.append(r)
            pos = m.end()
        out.append(s[pos:])
        return mkstr([_p(x) for x in out])
    key = re_key(pat) + ".sub"
    if isinstance(repl, str):
        e.trusted.add("re sub(%r): uninterpreted function of the subject string" % pat.pattern)
        return SStr((e.uf(key + "<" + repl + ">", z3.StringSort(), z3.StringSort())(s.t),))
    raise Unsupported("re.sub with a function on a symbolic subject")


def m_re(how):
    def h(it, args, kw):
        pat = _pat(args[0])
        if how == "findall":
            return re_findall(it, pat, args[1])
        if how in ("match", "search", "fullmatch"):
            return re_match_obj(it, pat, args[1], how)
        if how == "split":
            return re_split(it, pat, args[1])
        if how == "sub":
            return re_sub(it, pat, args[1], args[2], args[3] if len(args) > 3 else kw.get("count", 0))
        if how == "compile":
            return re.compile(args[0], *args[1:])
    return h


def install(it):
    M = it.models
    M.update({len: m_len, isinstance: m_isinstance, issubclass: m_issubclass, getattr: m_getattr, hasattr: m_hasattr,
              setattr: m_setattr, iter: m_iter, next: m_next, any: m_any, all: m_all, sum: m_sum, max: m_max,
              min: m_min, sorted: m_sorted, divmod: m_divmod, print: m_print, id: m_id, callable: m_callable, math.ceil: m_ceil,
              math.floor: m_floor, abs: m_abs, functools.reduce: m_reduce, inspect.getmro: m_getmro,
              copy.copy: m_copy, copy.deepcopy: m_deepcopy, warnings.warn: m_noop, repr: m_repr, hash: m_hash,
              re.findall: m_re("findall"), re.match: m_re("match"), re.search: m_re("search"),
              re.fullmatch: m_re("fullmatch"), re.split: m_re("split"), re.sub: m_re("sub"),
              re.compile: m_re("compile")})
    for nm in ("findall", "match", "search", "fullmatch", "split", "sub"):
        it.native_methods[(re.Pattern, nm)] = (lambda how: lambda it, o, a, k: m_re(how)(it, [o] + list(a), k))(nm)
    for nm in ("debug", "info", "warning", "error", "exception", "critical", "setLevel", "log"):
        it.native_methods[(logging.Logger, nm)] = lambda it, o, a, k: None

    # constructors reached as functions: tuple.__new__(cls, refs), str.__new__(cls, s), object.__new__(cls)
    def mk_new(it, args, kw):
        return new_instance(it, args[0], args[1:], kw)
    for c in (tuple, str, object, dict, list):
        M[c.__new__] = mk_new

    def unbound(name):
        def h(it, args, kw):
            o = args[0]
            return builtin_method(it, o, name, args[1:], kw)
        return h
    for c in (tuple, str, list, dict, set, object):
        for nm, f in list(c.__dict__.items()):
            if isinstance(f, (types.MethodDescriptorType, types.WrapperDescriptorType)):
                try:
                    if f not in M:
                        M[f] = unbound(nm)
                except TypeError:
                    pass
