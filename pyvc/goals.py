"""Goals: contracts over real functions, stated as Python functions over declared input domains.

A goal body is executed twice: symbolically (every path, proof obligations sent to the solver) and natively on sampled
inputs (bounded cross-check that also supplies concrete replays)."""
import ast
import inspect
import os
import random
import time
import traceback

import z3

from .values import *
from .values import Heap
from .engine import Engine, Budget, CarriedRead
from . import interp as I


class Skip(Exception):
    """Native run: the precondition does not hold for this sample."""


class Violated(Exception):
    def __init__(self, name, detail=""):
        Exception.__init__(self, "%s %s" % (name, detail))
        self.name, self.detail = name, detail


# ---------------------------------------------------------------- input domains
class Domain(object):
    def sym(self, it, name):
        raise Unsupported("domain %s has no symbolic form" % type(self).__name__)

    def gen(self, rng):
        raise NotImplementedError

    def from_model(self, v):
        return v

    def small(self):
        return []


class Str(Domain):
    """Any string without the characters of `lacks` (nonempty if asked)."""
    def __init__(self, lacks="", nonempty=False, gen=None, alphabet="ab1é ", maxlen=3, also=""):
        self.lacks, self.nonempty = lacks, nonempty
        self._gen = gen
        self.alphabet = [c for c in alphabet + also if c not in lacks]
        self.maxlen = maxlen

    def sym(self, it, name):
        t = z3.String(name)
        it.e.keep.append(t)
        for c in self.lacks:
            it.e.lack_facts[(t.get_id(), c)] = True
            it.e.assume(z3.Not(z3.Contains(t, z3.StringVal(c))))
        if self.nonempty:
            it.e.assume(z3.Length(t) > 0)
        return SStr((t,))

    def gen(self, rng):
        if self._gen is not None:
            return self._gen(rng)
        n = rng.randint(1 if self.nonempty else 0, self.maxlen)
        return "".join(rng.choice(self.alphabet) for _ in range(n))


class Int(Domain):
    def __init__(self, lo=None, hi=None, glo=None, ghi=None):
        self.lo, self.hi = lo, hi
        self.glo = glo if glo is not None else (lo if lo is not None else -6)
        self.ghi = ghi if ghi is not None else (hi if hi is not None else self.glo + 12)

    def sym(self, it, name):
        t = z3.Int(name)
        if self.lo is not None:
            it.e.assume(t >= self.lo)
        if self.hi is not None:
            it.e.assume(t <= self.hi)
        return SInt(t)

    def gen(self, rng):
        return rng.randint(self.glo, self.ghi)


class Bool(Domain):
    def sym(self, it, name):
        return SBool(z3.Bool(name))

    def gen(self, rng):
        return rng.random() < 0.5


class Choice(Domain):
    """One of finitely many concrete values."""
    def __init__(self, *values):
        self.values = values

    def sym(self, it, name):
        return self.values[it.e.choose(len(self.values), name)]

    def gen(self, rng):
        return rng.choice(self.values)


class Opt(Domain):
    def __init__(self, dom):
        self.dom = dom

    def sym(self, it, name):
        if it.e.choose(2, name) == 0:
            return self.dom.sym(it, name)
        return None

    def gen(self, rng):
        return None if rng.random() < 0.3 else self.dom.gen(rng)


class OneOf(Domain):
    def __init__(self, *doms):
        self.doms = doms

    def sym(self, it, name):
        i = it.e.choose(len(self.doms), name)
        return self.doms[i].sym(it, "%s_%d" % (name, i))

    def gen(self, rng):
        return rng.choice(self.doms).gen(rng)


def sym_list(it, name, mk, minlen=0, cls=PList):
    """A list of arbitrary length >= minlen whose j-th element is mk(j)."""
    n = z3.Int(name + ".n")
    it.e.assume(n >= minlen)
    return cls([("b", Base(n, mk, ident=("input", name)))])


class ListOf(Domain):
    """A list of any length of strings lacking some characters."""
    def __init__(self, dom, minlen=0, maxgen=3, kind=list):
        self.dom, self.minlen, self.maxgen, self.kind = dom, minlen, maxgen, kind

    def sym(self, it, name):
        e = it.e
        if isinstance(self.dom, Str):
            f = e.uf(name + ".at", z3.IntSort(), z3.StringSort())

            def mk(j):
                t = f(j)
                e.keep.append(t)
                for c in self.dom.lacks:
                    e.lack_facts[(t.get_id(), c)] = True
                    e.fact(z3.Not(z3.Contains(t, z3.StringVal(c))))
                if self.dom.nonempty:
                    e.fact(z3.Length(t) > 0)
                return SStr((t,))
        elif isinstance(self.dom, Int):
            f = e.uf(name + ".at", z3.IntSort(), z3.IntSort())

            def mk(j):
                t = f(j)
                if self.dom.lo is not None:
                    e.fact(t >= self.dom.lo)
                return SInt(t)
        else:
            mk = self.dom.elem(it, name)
        return sym_list(it, name, mk, self.minlen, PList if self.kind is list else STuple)

    def gen(self, rng):
        return self.kind(self.dom.gen(rng) for _ in range(rng.randint(self.minlen, max(self.maxgen, self.minlen))))


class Custom(Domain):
    """sym(it, name) and gen(rng) given as functions."""
    def __init__(self, sym, gen):
        self._sym, self._gen = sym, gen

    def sym(self, it, name):
        if self._sym is None:
            raise Unsupported("no symbolic form")
        return self._sym(it, name)

    def gen(self, rng):
        return self._gen(rng)


# ---------------------------------------------------------------- goals
class Goal(object):
    def __init__(self, fn, domains, of, bounded=False, samples=200, paths=4000, seconds=240, setup=None, prove_ms=None):
        self.fn, self.domains, self.of = fn, domains, of
        self.bounded, self.samples, self.paths, self.seconds = bounded, samples, paths, seconds
        self.setup = setup
        self.prove_ms = prove_ms
        self.name = fn.__name__
        doc = (fn.__doc__ or "").strip()
        self.bound = doc if doc.lower().startswith("bounded") else None

    def names(self):
        """The ensures clauses written in the goal's body."""
        node, _ = I.locate(self.fn)
        out = []
        for n in ast.walk(node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "ensures" \
                    and n.args and isinstance(n.args[0], ast.Constant):
                out.append(n.args[0].value)
        return out


class Module(object):
    """The goals of one property."""
    def __init__(self, prop):
        self.prop = prop
        self.goals = []
        self.setups = []
        self.assumptions = []

    def goal(self, of=(), bounded=False, samples=200, seconds=240, paths=4000, setup=None, prove_ms=None, **domains):
        def deco(fn):
            self.goals.append(Goal(fn, domains, of if isinstance(of, (tuple, list)) else (of,), bounded, samples,
                                   paths, seconds, setup, prove_ms))
            return fn
        return deco

    def setup(self, fn):
        self.setups.append(fn)
        return fn


# ---------------------------------------------------------------- native side
class NativeG(object):
    symbolic = False

    def __init__(self):
        self.ensured = 0

    def requires(self, c):
        if not c:
            raise Skip()

    def ensures(self, name, c):
        self.ensured += 1
        if not c:
            raise Violated(name)

    def outcome(self, thunk):
        try:
            return ("ok", thunk())
        except (Skip, Violated):
            raise
        except Exception as E:
            return ("raise", type(E).__name__)

    def note(self, *a):
        pass

    def witness(self, k):
        """Consider index k: facts known for every index are used at k (symbolic runs)."""


def run_native(goal, inputs):
    """None if the sample satisfies the goal, 'skip', or the violated clause."""
    g = NativeG()
    try:
        goal.fn(g, **inputs)
    except Skip:
        return "skip"
    except Violated as v:
        return ("violated", v.name, v.detail)
    except RecursionError as E:
        return ("violated", "no-unexpected-exception", "RecursionError")
    except Exception as E:
        tb = traceback.format_exc().strip().split("\n")
        return ("violated", "no-unexpected-exception", "%s: %s | %s" % (type(E).__name__, E, " ".join(tb[-4:-1])))
    return None if g.ensured else "skip"


def sample_native(goal, seed, count, seconds):
    """Bounded check of the goal on sampled inputs: (evaluated, distinct, violation)."""
    rng = random.Random("%s/%s" % (goal.name, seed))
    t0 = time.time()
    seen = set()
    done = 0
    samples = []
    for i in range(count):
        if time.time() - t0 > seconds:
            break
        state = rng.getstate()
        try:
            inputs = {k: d.gen(rng) for k, d in goal.domains.items()}
        except Skip:
            continue
        text = describe(inputs)
        r = run_native(goal, inputs)
        if r == "skip":
            continue
        done += 1
        seen.add(text)
        if len(samples) < 3:
            samples.append(text[:300])
        if r is not None:
            return done, len(seen), samples, {"inputs": text, "index": i, "seed": seed, "clause": r[1], "detail": r[2]}
    return done, len(seen), samples, None


def describe(inputs):
    return ", ".join("%s=%s" % (k, show(v)) for k, v in sorted(inputs.items()))


def show(v):
    s = getattr(v, "describe", None)
    if callable(s) and not isinstance(v, type):
        try:
            return s()
        except Exception:
            pass
    return repr(v)


# ---------------------------------------------------------------- symbolic side
class _G(object):
    pass


def make_g(it, goal):
    o = Obj(_G)
    e = it.e

    def requires(it, a, kw):
        if not it.truth(a[0]):
            raise Infeasible()
        if e.check() == z3.unsat:
            raise Infeasible()

    def ensures(it, a, kw):
        name, c = a
        if not isinstance(c, (bool, SBool)):
            c = it.truth(c)
        e.prove("%s: %s" % (goal.name, name), c)

    def outcome(it, a, kw):
        try:
            return ("ok", it.call(a[0], []))
        except Raise as r:
            return ("raise", r.exc.cls.__name__)

    def note(it, a, kw):
        return None
    def witness(it, a, kw):
        e.add_witness(iterm(a[0]), None)
    o.attrs = {"witness": Native(witness), "requires": Native(requires), "ensures": Native(ensures), "outcome": Native(outcome),
               "note": Native(note), "symbolic": True}
    return o


def run_symbolic(module, goal, deadline):
    """Generate and discharge the goal's obligations. Returns a result dict."""
    t0 = time.time()
    e = Engine(deadline=min(deadline, t0 + goal.seconds))
    e.MAX_PATHS = goal.paths
    if goal.prove_ms:
        e.PROVE_MS = goal.prove_ms
    it = I.Interp(e)
    for s in module.setups:
        s(it)
    if goal.setup:
        goal.setup(it)
    problems = []

    def path():
        it.depth = 0
        it.active = []
        inputs = {}
        for k, d in goal.domains.items():
            inputs[k] = d.sym(it, k)
        e.inputs = dict(inputs)
        g = make_g(it, goal)
        try:
            it.call(goal.fn, [g], inputs)
        except Raise as r:
            e.fail("%s: no-unexpected-exception" % goal.name, "raises %s%r" % (r.exc.cls.__name__, r.exc.prim))
            return
        except Unsupported as u:
            if e.check() == z3.unsat:
                raise Infeasible()
            problems.append("%s: %s" % (type(u).__name__, u))
            e._record("%s: verification condition" % goal.name, "unknown", "vcgen", 0.0, str(u))
    n = 0
    try:
        n = e.explore(path, goal.name)
    except Budget as b:
        problems.append("budget: %s" % b)
        e._record("%s: exploration" % goal.name, "unknown", "vcgen", 0.0, str(b))
    except RecursionError as b:
        problems.append("recursion in the verification condition generator")
        e._record("%s: exploration" % goal.name, "unknown", "vcgen", 0.0, "recursion")
    missing = [nm for nm in goal.names() if not e.covered.get("%s: %s" % (goal.name, nm))]
    for nm in missing:
        e._record("%s: %s" % (goal.name, nm), "unknown", "vacuity", 0.0, "no reachable path proves this clause")
    return {
        "goal": goal.name, "paths": n, "secs": time.time() - t0, "solver_s": e.solver_time, "queries": e.queries,
        "obligations": [o.as_dict() for o in e.obligations], "backends": dict(e.backends),
        "inlined": sorted(e.inlined), "trusted": sorted(e.trusted), "problems": problems[:20],
        "contracts_used": sorted(e.under_contract),
    }
