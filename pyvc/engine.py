"""Path exploration, solver access, journal, and the theory of ropes and symbolic sequences."""
import os
import subprocess
import tempfile
import time

import z3

from .values import *
from .values import Heap


class CarriedRead(Unsupported):
    """A loop body reads a value that depends on earlier iterations: an invariant is needed."""


class Budget(Exception):
    """The run exceeded its time or path budget: remaining obligations are undischarged."""


class Obligation(object):
    __slots__ = ("name", "status", "backend", "secs", "detail", "model", "path")

    def __init__(self, name, status, backend, secs, detail="", model=None, path=0):
        self.name, self.status, self.backend, self.secs = name, status, backend, secs
        self.detail, self.model, self.path = detail, model, path

    def as_dict(self):
        return {"name": self.name, "status": self.status, "backend": self.backend,
                "secs": round(self.secs, 3), "detail": self.detail[:4000], "model": self.model}


def _const_ids(t):
    """Ids of the constants of a term."""
    out, seen, todo = set(), set(), [t]
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if x.num_args() == 0:
            out.add(i)
        else:
            todo.extend(x.children())
    return out


class Engine(object):
    FEAS_MS = 2000
    PROVE_MS = 20000
    MAX_PATHS = 4000

    def __init__(self, deadline=None):
        self.obligations = []
        self.covered = {}
        self.deadline = deadline
        self.solver_time = 0.0
        self.queries = 0
        self.backends = {}
        self._uf = {}
        self._fresh = 0
        self.inputs = {}
        self.trusted = set()       # names of trusted models used
        self.under_contract = set()
        self.inlined = set()
        self.depth = 0
        self.extra_facts = []

    # ---------------------------------------------------------------- terms
    def uf(self, name, *sorts):
        key = (name,) + tuple(str(s) for s in sorts)
        if key not in self._uf:
            self._uf[key] = z3.Function(name, *sorts)
        return self._uf[key]

    def fresh_name(self, base):
        self._fresh += 1
        return "%s!%d" % (base, self._fresh)

    def fresh_int(self, base="k"):
        return z3.Int(self.fresh_name(base))

    def fresh_str(self, base="s"):
        return z3.String(self.fresh_name(base))

    # ---------------------------------------------------------------- exploration
    def explore(self, fn, name=""):
        """Run fn on every path. fn raises Infeasible to abandon a path."""
        work = [[]]
        n = 0
        results = []
        while work:
            if self.deadline and time.time() > self.deadline:
                raise Budget("time budget exhausted in %s after %d paths" % (name, n))
            if n >= self.MAX_PATHS:
                raise Budget("path budget exhausted in %s" % name)
            prefix = work.pop()
            n += 1
            self._start(prefix)
            try:
                results.append(fn())
            except Infeasible:
                pass
            work.extend(self.alts)
        return n

    def _start(self, prefix):
        self.solver = z3.Solver()
        self.solver.set("timeout", self.FEAS_MS)
        self.decisions = list(prefix)
        self.pos = 0
        self.alts = []
        self.facts = set()
        self.journal = []
        self.memo = []
        self.universals = []
        self.witnesses = []
        self.atom_info = {}
        self.lack_facts = {}
        self.frozen = []
        self.keep = []
        self.inputs = {}
        self.nest = 0
        self.choices_log = []
        self.sets = {}
        self.state = {}
        self.flats = []
        self.emitted = {}

    def nested(self, thunk):
        """Explore all sub-paths of thunk; every effect is undone. Returns the list of thunk results.

        thunk is called once per feasible sub-path with the sub-path's facts on the solver."""
        results = []
        work = [[]]
        saved = (self.decisions, self.pos, self.alts)
        count = 0
        self.nest += 1
        try:
            while work:
                prefix = work.pop()
                count += 1
                if count > 600:
                    raise Budget("nested path budget exhausted")
                if self.deadline and time.time() > self.deadline:
                    raise Budget("time budget exhausted")
                self.decisions, self.pos, self.alts = list(prefix), 0, []
                self.solver.push()
                snap = (set(self.facts), len(self.memo), list(self.universals), list(self.witnesses),
                        dict(self.atom_info), dict(self.lack_facts), len(self.journal), list(self.frozen),
                        dict(self.sets), dict(self.state), list(self.flats), dict(self.emitted))
                try:
                    results.append(thunk())
                except Infeasible:
                    pass
                finally:
                    self.rollback(snap[6])
                    self.facts = snap[0]
                    del self.memo[snap[1]:]
                    self.universals, self.witnesses = snap[2], snap[3]
                    self.atom_info, self.lack_facts, self.frozen = snap[4], snap[5], snap[7]
                    self.sets, self.state, self.flats, self.emitted = snap[8], snap[9], snap[10], snap[11]
                    self.solver.pop()
                work.extend(self.alts)
        finally:
            self.nest -= 1
            self.decisions, self.pos, self.alts = saved
        return results

    def check(self, *extra):
        t0 = time.time()
        r = self.solver.check(*extra)
        self.solver_time += time.time() - t0
        self.queries += 1
        return r

    def assume(self, t):
        if isinstance(t, (bool, SBool)):
            t = bterm(t)
        if z3.is_true(t):
            return
        if z3.is_false(t):
            raise Infeasible()
        self.solver.add(t)

    def fact(self, t):
        """A universally valid fact (lemma instance or definition): added once per path."""
        h = t.get_id()
        if h in self.facts:
            return
        self.facts.add(h)
        self.keep.append(t)
        self.solver.add(t)

    def assume_checked(self, t):
        self.assume(t)
        if self.check() == z3.unsat:
            raise Infeasible()

    def branch(self, c):
        """Decide a boolean; forks when both outcomes are feasible."""
        d = self._branch(c)
        if self.flats and not isinstance(c, bool):
            self._settle_flats(c.t if isinstance(c, SBool) else c)
        return d

    def _settle_flats(self, c):
        """When c decides whether a flattened sequence is empty, say so of its pieces."""
        names = None
        for t, flat in list(self.flats):
            key = ("flat settled", t.get_id())
            if key in self.state:
                continue
            if names is None:
                names = _const_ids(c)
            if t.get_id() not in names:
                continue
            family = ("pieces", str(z3.simplify(flat.n) if not isinstance(flat.n, int) else flat.n))
            if self.entails(t == 0):
                self.state[key] = True

                def empty(j, flat=flat):
                    if self.branch(iterm(self.seq_len(flat.emit(j))) != 0):
                        raise Infeasible()
                self.add_universal(flat.n, empty, family)
                if flat.family is not None:
                    self.add_universal(flat.n, empty, flat.family)
                if self.entails(flat.n > 0):
                    empty(z3.IntVal(0))
            elif self.entails(t > 0):
                self.state[key] = True
                w = self.fresh_int("piece")
                self.assume_checked(z3.And(w >= 0, w < flat.n))
                if not self.branch(iterm(self.seq_len(flat.emit(w))) > 0):
                    raise Infeasible()
                self.add_witness(w, family)
                if flat.family is not None:
                    self.add_witness(w, flat.family)

    def _branch(self, c):
        """Decide a boolean; forks when both outcomes are feasible."""
        if isinstance(c, bool):
            return c
        if isinstance(c, SBool):
            c = c.t
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
            self.pos += 1
            self.solver.add(c if d else z3.Not(c))
            return d
        can_t = self.check(c) != z3.unsat
        can_f = self.check(z3.Not(c)) != z3.unsat if can_t else True
        if can_t and can_f:
            self.alts.append(self.decisions + [False])
            d = True
        elif can_t:
            d = True
        else:
            if self.check() == z3.unsat:
                raise Infeasible()
            d = False
        self.decisions.append(d)
        self.pos += 1
        self.solver.add(c if d else z3.Not(c))
        return d

    def choose(self, n, label=""):
        """Nondeterministic choice in range(n)."""
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
            self.pos += 1
            return d
        for j in range(1, n):
            self.alts.append(self.decisions + [j])
        self.decisions.append(0)
        self.pos += 1
        return 0

    def entails(self, c, ms=None):
        """Is c a consequence of the current path condition? (unknown counts as no)"""
        if isinstance(c, bool):
            return c
        if isinstance(c, SBool):
            c = c.t
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return self.check() == z3.unsat
        return self.check(z3.Not(c)) == z3.unsat

    # ---------------------------------------------------------------- obligations
    def prove(self, name, c, detail=""):
        """Record and discharge the obligation pc => c."""
        if isinstance(c, SBool):
            c = c.t
        elif isinstance(c, bool):
            c = z3.BoolVal(c)
        t0 = time.time()
        if name not in self.covered:
            self.covered[name] = self.check() != z3.unsat
            # `unknown` counts as reachable: z3 found no contradiction in the path condition
        elif not self.covered[name]:
            self.covered[name] = self.check() != z3.unsat
        c = z3.simplify(c)
        if z3.is_true(c):
            self._record(name, "discharged", "simplifier", time.time() - t0, detail)
            return True
        self.solver.set("timeout", self.PROVE_MS)
        try:
            r = self.check(z3.Not(c))
            model = None
            backend = "z3"
            if r == z3.sat:
                model = self.model_inputs(self.solver.model())
            elif r == z3.unknown:
                r, backend = self.fallback(c)
        finally:
            self.solver.set("timeout", self.FEAS_MS)
        st = "discharged" if r == z3.unsat else ("refuted" if r == z3.sat else "unknown")
        if r == z3.unsat:
            self.solver.add(c)
        if st != "discharged":
            detail = (detail + " | goal: " + str(c)[:1500])
        self._record(name, st, backend, time.time() - t0, detail, model)
        return r == z3.unsat

    def fail(self, name, detail, status="refuted"):
        """An obligation whose goal is false on this path (unless the path is infeasible)."""
        self.solver.set("timeout", self.PROVE_MS)
        t0 = time.time()
        r = self.check()
        self.solver.set("timeout", self.FEAS_MS)
        if r == z3.unsat:
            self._record(name, "discharged", "z3", time.time() - t0, "path infeasible")
            return
        model = self.model_inputs(self.solver.model()) if r == z3.sat else None
        self._record(name, status, "z3", time.time() - t0, detail, model)

    def _record(self, name, status, backend, secs, detail="", model=None):
        self.obligations.append(Obligation(name, status, backend, secs, detail, model))
        self.backends[backend] = self.backends.get(backend, 0) + 1

    def fallback(self, c):
        """Retry with a fresh z3 (different seed), then with cvc5."""
        s = z3.Solver()
        s.set("timeout", self.PROVE_MS)
        s.set("random_seed", 7)
        for a in self.solver.assertions():
            s.add(a)
        s.add(z3.Not(c))
        t0 = time.time()
        r = s.check()
        self.solver_time += time.time() - t0
        if r == z3.unsat:
            return r, "z3-restart"
        text = "(set-logic ALL)\n" + s.to_smt2()
        fd, path = tempfile.mkstemp(suffix=".smt2")
        try:
            with os.fdopen(fd, "w") as f:
                f.write(text)
            t0 = time.time()
            out = subprocess.run(["cvc5", "--strings-exp", "--tlimit=20000", path],
                                 capture_output=True, text=True, timeout=40).stdout
            self.solver_time += time.time() - t0
        except Exception:
            out = ""
        finally:
            os.unlink(path)
        if out.strip().startswith("unsat"):
            return z3.unsat, "cvc5"
        return r, "z3-restart"

    def model_inputs(self, m):
        out = {}
        for k, v in self.inputs.items():
            try:
                out[k] = self.eval_model(m, v)
            except Exception as e:
                out[k] = "?%s" % e
        return out

    def eval_model(self, m, v):
        if isinstance(v, (str, int, bool)) or v is None:
            return v
        if isinstance(v, SStr):
            x = m.eval(v.t, model_completion=True)
            return x.as_string() if z3.is_string_value(x) else str(x)
        if isinstance(v, SInt):
            return m.eval(v.t, model_completion=True).as_long()
        if isinstance(v, SBool):
            return z3.is_true(m.eval(v.t, model_completion=True))
        if isinstance(v, (list, tuple)):
            return [self.eval_model(m, x) for x in v]
        if isinstance(v, (PList, STuple)):
            out = []
            for k, p in v.parts:
                if k == "i":
                    out.append(self.eval_model(m, p))
                elif k == "b":
                    out.extend(self.eval_model(m, p))
                else:
                    raise Unsupported("model of a filtered sequence")
            return out if isinstance(v, PList) else tuple(out)
        if isinstance(v, Base):
            n = m.eval(z3.IntVal(v.n) if isinstance(v.n, int) else v.n, model_completion=True).as_long()
            return [self.eval_model(m, v.at(z3.IntVal(i))) for i in range(min(n, 8))]
        if isinstance(v, Ref):
            return str(m.eval(v.t, model_completion=True))
        return repr(v)

    # ---------------------------------------------------------------- journal
    replayed = frozenset()   # accumulators of the loop being re-evaluated (its effects are undone afterwards)

    def jset(self, target, slot, new):
        if isinstance(target, Heap) and self.frozen and target.uid not in self.replayed:
            for lo, hi in self.frozen:
                if lo < target.uid <= hi:
                    raise Unsupported("mutation of an object created by a lazily evaluated expression")
        self.journal.append((target, slot, getattr(target, slot), new))
        setattr(target, slot, new)

    def rollback(self, mark):
        while len(self.journal) > mark:
            target, slot, old, new = self.journal.pop()
            setattr(target, slot, old)

    def now(self):
        """The current point of the heap's history, for at_time."""
        return list(self.journal)

    def at_time(self, when, thunk):
        """Run thunk with the heap as it was at the point `when` (from now()); its own effects are undone,
        except what it puts in the objects it creates."""
        current = self.journal
        n = 0
        for a, b in zip(current, when):
            if a is not b:
                break
            n += 1
        touched = []

        def put(target, slot, value):
            touched.append((target, slot, getattr(target, slot)))
            setattr(target, slot, value)
        for target, slot, old, new in reversed(current[n:]):
            put(target, slot, old)
        for target, slot, old, new in when[n:]:
            put(target, slot, new)
        self.journal = list(when)
        mark = len(when)
        start_uid = Heap.counter[0]
        try:
            return thunk()
        finally:
            made = [(t, slot, new) for t, slot, _, new in self.journal[mark:] if isinstance(t, Heap) and t.uid > start_uid]
            self.rollback(mark)
            for target, slot, new in made:
                setattr(target, slot, new)
            for target, slot, value in reversed(touched):
                setattr(target, slot, value)
            self.journal = current
            self.frozen.append((start_uid, Heap.counter[0]))

    # ---------------------------------------------------------------- universals and witnesses
    def add_universal(self, bound, runner, family):
        """For all j in [0,bound): runner(j) completes normally (runner raises Infeasible otherwise)."""
        u = (bound, runner, family)
        self.universals.append(u)
        for w, fam in list(self.witnesses):
            self._instantiate(u, w, fam)

    def add_witness(self, k, family):
        self.witnesses.append((k, family))
        for u in list(self.universals):
            self._instantiate(u, k, family)

    def _instantiate(self, u, w, fam):
        bound, runner, family = u
        if family is not None and fam is not None and family != fam:
            return
        if self.branch(z3.And(w >= 0, w < bound)):
            runner(w)

    # ---------------------------------------------------------------- ropes
    def atom(self, t, info=None):
        if info is not None:
            self.atom_info[t.get_id()] = info
            self.keep.append(t)
        return SStr((t,))

    def lacks(self, t, c):
        """Is the single character c provably absent from the string atom t?"""
        key = (t.get_id(), c)
        if key in self.lack_facts:
            return self.lack_facts[key]
        self.lack_facts[key] = False  # cut cycles
        res = self._lacks(t, c)
        if not res:
            res = self.entails(z3.Not(z3.Contains(t, z3.StringVal(c))))
        if res:
            self.fact(z3.Not(z3.Contains(t, z3.StringVal(c))))
            self.lack_facts[key] = True
        else:
            del self.lack_facts[key]
        return res

    def _lacks(self, t, c):
        info = self.atom_info.get(t.get_id())
        if info is None:
            return False
        kind = info[0]
        if kind == "lacks":
            if c in info[1]:
                return True
            parent = info[2] if len(info) > 2 else None
            return parent is not None and self.rope_lacks(parent, c)
        if kind == "split":
            _, rope, sep, _i = info
            return c == sep or self.rope_lacks(rope, c)
        if kind == "join":
            _, base, sep = info
            if c in sep:
                return False
            return self.all_lack(base, c)
        if kind == "int":
            return not (c.isdigit() or c == "-")
        if kind == "sub":
            return self.rope_lacks(info[1], c)
        return False

    def all_lack(self, base, c):
        def one():
            k = self.fresh_int("lk")
            self.assume(z3.And(k >= 0, k < base.n))
            v = base.at(k)
            return self.rope_lacks(v, c)
        return all(self.nested(one))

    def rope_lacks(self, v, c):
        if isinstance(v, Obj):
            v = v.prim
        if isinstance(v, str):
            return c not in v
        if not isinstance(v, SStr):
            return False
        return all((c not in p) if isinstance(p, str) else self.lacks(p, c) for p in v.pieces)

    def contains(self, v, needle):
        """needle in v -> bool/SBool"""
        if isinstance(v, Obj):
            v = v.prim
        if isinstance(needle, Obj):
            needle = needle.prim
        if isinstance(v, str) and isinstance(needle, str):
            return needle in v
        if isinstance(needle, str):
            if needle == "":
                return True
            if any(isinstance(p, str) and needle in p for p in v.pieces):
                return True
            for c in set(needle):
                if self.rope_lacks(v, c):
                    return False
            if len(needle) == 1:
                ts = [z3.Contains(p, z3.StringVal(needle)) for p in v.pieces
                      if not isinstance(p, str) and not self.lacks(p, needle)]
                return mkbool(z3.Or(*ts))
        return mkbool(z3.Contains(sterm(v), sterm(needle)))

    def str_eq(self, a, b):
        if isinstance(a, str) and isinstance(b, str):
            return str.__eq__(a, b) if type(a) is str and type(b) is str else a == b
        pa = list(a.pieces) if isinstance(a, SStr) else [a]
        pb = list(b.pieces) if isinstance(b, SStr) else [b]
        pa = [p for p in pa if not (isinstance(p, str) and p == "")]
        pb = [p for p in pb if not (isinstance(p, str) and p == "")]

        def strip(front):
            while pa and pb:
                x, y = (pa[0], pb[0]) if front else (pa[-1], pb[-1])
                ix, iy = (0, 0) if front else (-1, -1)
                if isinstance(x, str) and isinstance(y, str):
                    m = min(len(x), len(y))
                    if front:
                        if x[:m] != y[:m]:
                            return False
                        rx, ry = x[m:], y[m:]
                    else:
                        if x[len(x) - m:] != y[len(y) - m:]:
                            return False
                        rx, ry = x[:len(x) - m], y[:len(y) - m]
                    for lst, r in ((pa, rx), (pb, ry)):
                        if r == "":
                            lst.pop(ix)
                        else:
                            lst[ix] = r
                elif not isinstance(x, str) and not isinstance(y, str) and x.eq(y):
                    pa.pop(ix)
                    pb.pop(iy)
                else:
                    return True
            return True
        if not strip(True) or not strip(False):
            return False
        if not pa and not pb:
            return True
        # characters of a literal in one side that the other side provably lacks
        for one, other in ((pa, pb), (pb, pa)):
            lits = set("".join(p for p in one if isinstance(p, str)))
            for c in lits:
                if c in ".:-@#/?$,&= " and all((c not in p) if isinstance(p, str) else self.lacks(p, c)
                                               for p in other):
                    return False
        # split both sides at a literal character that no atom contains: equality is piecewise
        lits = set("".join(p for p in pa if isinstance(p, str))) & set("".join(p for p in pb if isinstance(p, str)))
        for c in sorted(lits):
            if c in "-:@.#/?$,&= " and all(isinstance(p, str) or self.lacks(p, c) for p in pa + pb):
                sa, sb = self._segments(pa, c), self._segments(pb, c)
                if len(sa) != len(sb):
                    return False
                ts = []
                for x, y in zip(sa, sb):
                    r = self.str_eq(x, y)
                    if r is False:
                        return False
                    if r is not True:
                        ts.append(r.t)
                return mkbool(z3.And(*ts)) if ts else True
        ta = sterm(mkstr(pa))
        tb = sterm(mkstr(pb))
        return mkbool(ta == tb)

    def _segments(self, pieces, c):
        segs, cur = [], []
        for p in pieces:
            if isinstance(p, str):
                bits = p.split(c)
                cur.append(bits[0])
                for b in bits[1:]:
                    segs.append(mkstr(cur))
                    cur = [b]
            else:
                cur.append(p)
        segs.append(mkstr(cur))
        return segs

    def count_char(self, v, c):
        """v.count(c) as int/SInt, c a single character."""
        if isinstance(v, Obj):
            v = v.prim
        if isinstance(v, str):
            return v.count(c)
        total = z3.IntVal(0)
        for p in v.pieces:
            if isinstance(p, str):
                total = total + p.count(c)
            elif self.lacks(p, c):
                continue
            else:
                info = self.atom_info.get(p.get_id())
                if info and info[0] == "join" and info[2] == c and self.all_lack(info[1], c):
                    total = total + info[1].n - 1  # a join atom exists only for a non-empty sequence
                else:
                    total = total + self._count_atom(p, c)
        return mkint(total)

    def _count_atom(self, t, c):
        f = self.uf("count_%x" % ord(c), z3.StringSort(), z3.IntSort())(t)
        self.fact(f >= 0)
        self.fact((f == 0) == z3.Not(z3.Contains(t, z3.StringVal(c))))
        return f

    def _split_atom(self, t, sep):
        """The sequence t.split(sep) of an atom, sep a single character."""
        n = self._count_atom(t, sep) + 1
        f = self.uf("split_%x" % ord(sep), z3.StringSort(), z3.IntSort(), z3.StringSort())
        whole = SStr((t,))
        sv = z3.StringVal(sep)

        def at(i):
            e = f(t, i)
            self.atom_info.setdefault(e.get_id(), ("split", whole, sep, i))
            self.keep.append(e)
            self.fact(z3.Not(z3.Contains(e, sv)))
            return SStr((e,))
        first = at(z3.IntVal(0))
        self.fact(z3.Implies(n == 1, first.t == t))
        self.fact(z3.Implies(n == 2, z3.Concat(first.t, sv, at(z3.IntVal(1)).t) == t))
        self.fact(z3.Implies(n > 1, z3.PrefixOf(z3.Concat(first.t, sv), t)))
        self.fact(z3.Implies(n == 3, z3.Concat(first.t, sv, at(z3.IntVal(1)).t, sv, at(z3.IntVal(2)).t) == t))
        return Base(n, at, ident=("split", t.get_id(), sep, "full"))

    def split(self, v, sep):
        """Parts of v.split(sep) for a concrete single-character separator."""
        if isinstance(v, Obj):
            v = v.prim
        if isinstance(v, str):
            return [("i", x) for x in v.split(sep)]
        if len(sep) != 1:
            raise Unsupported("split on a multi-character separator of a symbolic string")
        pieces = list(v.pieces)
        parts = []
        cur = ""
        i = 0
        open_tail = True  # whether cur must still be emitted
        while i < len(pieces):
            p = pieces[i]
            if isinstance(p, str):
                segs = p.split(sep)
                cur = mkstr((cur, segs[0]))
                for s in segs[1:]:
                    parts.append(("i", cur))
                    cur = s
                i += 1
                continue
            if self.lacks(p, sep):
                cur = mkstr((cur, p))
                i += 1
                continue
            info = self.atom_info.get(p.get_id())
            if info and info[0] == "join" and info[2] == sep and self.all_lack(info[1], sep):
                base = info[1]
            else:
                base = self._split_atom(p, sep)
            last = i + 1 == len(pieces)
            nxt_sep = not last and isinstance(pieces[i + 1], str) and pieces[i + 1].startswith(sep)
            if isinstance(cur, str) and cur == "" and last:
                parts.append(("b", base))
                return parts
            if isinstance(cur, str) and cur == "" and nxt_sep:
                parts.append(("b", base))
                pieces[i + 1] = pieces[i + 1][len(sep):]
                # the separator was consumed; cur restarts empty
                i += 1
                continue
            if self.branch(base.n == 1):
                cur = mkstr((cur, base.at(z3.IntVal(0))))
            else:
                parts.append(("i", mkstr((cur, base.at(z3.IntVal(0))))))
                parts.append(("b", self.slice_base(base, 1, base.n - 1)))
                cur = base.at(base.n - 1)
            i += 1
        parts.append(("i", cur))
        return parts

    def slice_base(self, base, lo, hi):
        """base[lo:hi] for 0 <= lo <= hi <= n (terms or ints)."""
        lo_t = z3.IntVal(lo) if isinstance(lo, int) else lo
        hi_t = z3.IntVal(hi) if isinstance(hi, int) else hi
        n_t = z3.IntVal(base.n) if isinstance(base.n, int) else base.n
        lo_t, hi_t = z3.simplify(lo_t), z3.simplify(hi_t)
        if z3.is_int_value(lo_t) and lo_t.as_long() == 0 and hi_t.eq(z3.simplify(n_t)):
            return base
        ident = None
        if base.ident is not None:
            ident = ("slice", base.ident, str(lo_t), str(hi_t))
        return Base(z3.simplify(hi_t - lo_t), lambda i: base.at(z3.simplify(i + lo_t)), ident, base.elem)

    def family(self, ident):
        while ident is not None and ident[0] in ("slice", "map", "rev"):
            ident = ident[1]
            if ident is not None and ident[0] == "#":
                return ident[1]
        return None if ident is None else (ident if isinstance(ident, str) else str(ident))

    def join(self, sep, parts):
        if isinstance(sep, Obj):
            sep = sep.prim
        pieces = []
        first = True
        for k, v in parts:
            if k == "i":
                if isinstance(v, Obj):
                    v = v.prim
                if not isinstance(v, (str, SStr)):
                    raise Unsupported("join of a non string %r" % (v,))
                if not first:
                    pieces.append(sep)
                pieces.append(v)
                first = False
            elif k == "b":
                if self.branch(v.n == 0 if not isinstance(v.n, int) else v.n == 0):
                    continue
                if not first:
                    pieces.append(sep)
                pieces.append(self.join_atom(sep, v))
                first = False
            else:
                raise Unsupported("join of a filtered symbolic sequence")
        return mkstr(pieces)

    def join_atom(self, sep, base):
        """sep.join(base) for a non-empty symbolic base."""
        if not isinstance(sep, str):
            raise Unsupported("join with a symbolic separator")
        if base.ident and base.ident[0] == "split" and base.ident[2] == sep and base.ident[3] == "full":
            probe = base.at(z3.IntVal(0)).pieces[0]
            return self.atom_info[probe.get_id()][1]
        for m in self.memo:
            if m[0] == "join" and m[1] == sep and self.provably_same_base(m[2], base):
                return SStr((m[3],))
        t = self.fresh_str("join")
        self.atom_info[t.get_id()] = ("join", base, sep)
        self.keep.append(t)
        self.memo.append(("join", sep, base, t))
        n = base.n if not isinstance(base.n, int) else z3.IntVal(base.n)
        if not z3.is_int_value(z3.simplify(n)):
            f0 = base.at(z3.IntVal(0))
            if isinstance(f0, Obj):
                f0 = f0.prim
            if isinstance(f0, (str, SStr)):
                self.fact(z3.Implies(n == 1, t == sterm(f0)))
                self.fact(z3.PrefixOf(sterm(f0), t))
        return SStr((t,))

    def provably_same_base(self, a, b):
        if a is b:
            return True
        if a.ident is not None and a.ident == b.ident:
            return True
        na = a.n if not isinstance(a.n, int) else z3.IntVal(a.n)
        nb = b.n if not isinstance(b.n, int) else z3.IntVal(b.n)
        if not self.entails(na == nb):
            return False

        def one():
            k = self.fresh_int("sb")
            self.assume(z3.And(k >= 0, k < na))
            if self.check() == z3.unsat:
                return True
            try:
                return self.same_now(a.at(k), b.at(k))
            except (Raise, Unsupported):
                return False
        return all(self.nested(one))

    def same_now(self, x, y):
        """Are two values provably the same on the current path (no forks)?"""
        if x is y:
            return True
        if isinstance(x, Obj) and isinstance(y, Obj):
            if x.cls is not y.cls or set(x.attrs) != set(y.attrs):
                return False
            return self.same_now(x.prim, y.prim) and all(self.same_now(x.attrs[k], y.attrs[k]) for k in x.attrs)
        if isinstance(x, (str, SStr)) and isinstance(y, (str, SStr)):
            return self.entails(self.str_eq(x, y))
        if isinstance(x, (bool, SBool)) and isinstance(y, (bool, SBool)):
            return self.entails(bterm(x) == bterm(y))
        if isinstance(x, (int, SInt)) and isinstance(y, (int, SInt)):
            return self.entails(iterm(x) == iterm(y))
        if isinstance(x, Ref) and isinstance(y, Ref):
            return x.t.sort() == y.t.sort() and self.entails(x.t == y.t)
        if isinstance(x, tuple) and isinstance(y, tuple):
            return len(x) == len(y) and all(self.same_now(a, b) for a, b in zip(x, y))
        if isinstance(x, (PList, STuple)) and type(x) is type(y):
            return self.same_parts(x.parts, y.parts)
        if x is None or y is None:
            return False
        try:
            return type(x) is type(y) and not isinstance(x, (Heap, SReal)) and bool(x == y)
        except Exception:
            return False

    def same_parts(self, p, q):
        p = [x for x in p]
        q = [x for x in q]
        if len(p) != len(q):
            return False
        for (k1, v1), (k2, v2) in zip(p, q):
            if k1 != k2:
                return False
            if k1 == "i":
                if not self.same_now(v1, v2):
                    return False
            elif k1 == "b":
                if not self.provably_same_base(v1, v2):
                    return False
            elif v1 is not v2 and not self.same_flat(v1, v2):
                return False
        return True

    def same_flat(self, a, b):
        if not self.entails(a.n == b.n):
            return False

        def one():
            k = self.fresh_int("sf")
            self.assume(z3.And(k >= 0, k < a.n))
            try:
                return self.same_parts(a.emit(k), b.emit(k))
            except (Raise, Unsupported):
                return False
        return all(self.nested(one))

    def seq_len(self, parts):
        total = z3.IntVal(0)
        for k, v in parts:
            if k == "i":
                total = total + 1
            elif k == "b":
                total = total + v.n
            else:
                total = total + self.flat_len(v)
        return mkint(total)

    def same_shape(self, p, q):
        """Provably the same number of elements, part by part."""
        if len(p) != len(q):
            return False
        for (k1, v1), (k2, v2) in zip(p, q):
            if k1 != k2:
                return False
            if k1 == "b" and not self.entails(v1.n == v2.n):
                return False
            if k1 == "f" and v1 is not v2:
                if not self.entails(v1.n == v2.n):
                    return False

                def one():
                    k = self.fresh_int("sh")
                    self.assume(z3.And(k >= 0, k < v1.n))
                    try:
                        return self.same_shape(v1.emit(k), v2.emit(k))
                    except (Raise, Unsupported):
                        return False
                if not all(self.nested(one)):
                    return False
        return True

    def flat_len(self, flat):
        n = len(self.memo)
        t = self.fold_memo("len", [("f", flat)], z3.IntSort(), lambda t: t >= 0)
        if len(self.memo) > n:
            self.flats.append((t, flat))
        return t

    def fold_memo(self, op, parts, sort, fact=None):
        """A term for op(sequence), shared between provably equal sequences."""
        for m in self.memo:
            if m[0] == "fold" and m[1] == op and (self.same_shape if op == "len" else self.same_parts)(m[2], parts):
                return m[3]
        t = z3.Const(self.fresh_name(op), sort)
        self.memo.append(("fold", op, list(parts), t))
        if fact is not None:
            self.solver.add(fact(t))
        other = {"sum": "len", "len": "sum"}.get(op)
        for m in list(self.memo[:-1]) if other else ():
            if m[0] == "fold" and m[1] == other:
                summed, counted = (parts, m[2]) if op == "sum" else (m[2], parts)
                if self.sum_is_len(summed, counted):
                    self.solver.add(t == m[3])
                    break
        return t

    def sum_is_len(self, summed, counted):
        """Is it provable, part by part, that the numbers of the one add up to the length of the other?"""
        if len(summed) != 1 or len(counted) != 1:
            return False
        (k, v), (_, w) = summed[0], counted[0]
        if not isinstance(w, Flat) or k == "i" or not self.entails(v.n == w.n):
            return False

        def one():
            j = self.fresh_int("sl")
            self.assume(z3.And(j >= 0, j < v.n))
            try:
                there = w.emit(j)
                if k == "b":
                    total = v.at(j)
                elif all(x == "i" for x, _ in v.emit(j)):
                    total = mkint(sum([iterm(y) for _, y in v.emit(j)], z3.IntVal(0)))
                else:
                    inner = v.emit(j)
                    if len(inner) != 1:
                        return False
                    total = mkint(self.fold_memo("sum", inner, z3.IntSort()))
                return self.entails(iterm(total) == iterm(self.seq_len(there)))
            except (Raise, Unsupported):
                return False
        return all(self.nested(one))
