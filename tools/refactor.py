"""Self-test: rewrite, without changing what they do, all functions a property's check executes; the check must stay quiet.

python3-vt -B tools/refactor.py C05 [variants] [first seed] -- prints the alarms."""
import ast, copy, json, os, random, shutil, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"


def name(s):
    return ast.Name(s, ast.Load())


def parse(text):
    return ast.parse(text).body


U = ast.unparse


class Rewriter(object):
    def __init__(self, rng, helpers, cls):
        self.rng, self.helpers, self.cls, self.n, self.log = rng, helpers, cls, 0, []

    def fresh(self, s):
        self.n += 1
        return "%s_%d" % (s, self.n)

    def function(self, f):
        self.locals = {a.arg for a in f.args.args + f.args.kwonlyargs}
        for v in (f.args.vararg, f.args.kwarg):
            if v:
                self.locals.add(v.arg)
        for n in ast.walk(f):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                self.locals.add(n.id)
        self.generator = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(f))
        self.comp_names = {n.id for c in ast.walk(f) if isinstance(c, ast.comprehension) for n in ast.walk(c.target) if isinstance(n, ast.Name)}
        f.body = self.block(f.body)
        return f

    def coin(self, p=.5):
        return self.rng.random() < p

    def block(self, body):
        out = []
        i = 0
        while i < len(body):
            s = body[i]
            rest = body[i + 1:]
            # if c: ...return  REST   ->   if c: ... else: REST
            if isinstance(s, ast.If) and not s.orelse and rest and isinstance(s.body[-1], (ast.Return, ast.Raise)) and self.coin(.3):
                self.log.append("else for the rest")
                s = ast.If(s.test, s.body, rest)
                out.extend(self.stmt(s))
                return out
            # if c: return A else: return B -> no else
            if isinstance(s, ast.If) and s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)) and self.coin(.4):
                self.log.append("drop else")
                out.extend(self.stmt(ast.If(s.test, s.body, [])))
                body = list(s.orelse) + rest
                i = 0
                continue
            out.extend(self.stmt(s))
            i += 1
        return out

    def free(self, e):
        return sorted({n.id for n in ast.walk(e) if isinstance(n, ast.Name) and n.id in self.locals})

    def helper(self, e):
        """The value of e computed by a new module level function."""
        bad = any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Lambda, ast.NamedExpr)) or
                  isinstance(n, ast.Name) and n.id in ("super", "__class__") or
                  isinstance(n, (ast.Attribute,)) and n.attr.startswith("__") and not n.attr.endswith("__") for n in ast.walk(e))
        comp = {n.id for c in ast.walk(e) if isinstance(c, ast.comprehension) for n in ast.walk(c.target) if isinstance(n, ast.Name)}
        if bad:
            return e
        fn = self.fresh("_helper_" + (self.cls or "m").lower())
        args = [a for a in self.free(e) if a not in comp or a in self.params]
        if set(args) & comp:
            return e
        self.helpers.append("def %s(%s):\n    return %s\n" % (fn, ", ".join(args), U(e)))
        self.log.append("helper " + U(e)[:60])
        return ast.parse("%s(%s)" % (fn, ", ".join(args)), mode="eval").body

    params = ()

    def test(self, e):
        if isinstance(e, ast.BoolOp) and isinstance(e.op, ast.And) and self.coin(.3):
            self.log.append("de morgan")
            return ast.UnaryOp(ast.Not(), ast.BoolOp(ast.Or(), [ast.UnaryOp(ast.Not(), v) for v in e.values]))
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.IsNot, ast.NotIn)) and self.coin(.3):
            self.log.append("not (is/in)")
            op = ast.Is() if isinstance(e.ops[0], ast.IsNot) else ast.In()
            return ast.UnaryOp(ast.Not(), ast.Compare(e.left, [op], e.comparators))
        if self.coin(.15) and not isinstance(e, ast.Name):
            return self.helper(e)
        return e

    def stmt(self, s):
        if isinstance(s, ast.If):
            s = ast.If(s.test, list(s.body), list(s.orelse))
            if s.orelse and self.coin(.35):
                self.log.append("inverted if")
                s = ast.If(ast.UnaryOp(ast.Not(), s.test), s.orelse, s.body)
            elif isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And) and not s.orelse and self.coin(.3):
                self.log.append("nested ifs")
                inner = s.body
                for v in reversed(s.test.values):
                    inner = [ast.If(v, inner, [])]
                s = inner[0]
            s.test = self.test(s.test)
            s.body = self.block(s.body)
            s.orelse = self.block(s.orelse) if s.orelse else []
            return [s]
        if isinstance(s, ast.For) and not s.orelse:
            s = copy.copy(s)
            has_continue = any(isinstance(n, ast.Continue) for n in ast.walk(s))
            k = self.rng.random()
            if k < .2:
                self.log.append("enumerate")
                i = self.fresh("i")
                s.target = ast.Tuple([ast.Name(i, ast.Store()), s.target], ast.Store())
                s.iter = ast.Call(name("enumerate"), [s.iter], [])
            elif k < .35 and not self.generator:
                self.log.append("items first")
                v = self.fresh("items")
                pre = ast.Assign([ast.Name(v, ast.Store())], ast.Call(name("list"), [s.iter], []))
                s.iter = name(v)
                s.body = self.block(s.body)
                return [pre, s]
            elif k < .45 and not self.generator:
                self.log.append("while loop")
                v, i = self.fresh("items"), self.fresh("i")
                body = self.block(s.body)
                text = "%s = list(%s)\n%s = 0\nwhile %s < len(%s):\n    %s = %s[%s]\n    %s += 1\n" % (
                    v, U(s.iter), i, i, v, U(s.target), v, i, i)
                new = parse(text)
                new[-1].body.extend(body)
                return new
            s.body = self.block(s.body)
            return [s]
        if isinstance(s, ast.While) and not s.orelse:
            s = copy.copy(s)
            s.body = self.block(s.body)
            if self.coin(.4):
                self.log.append("while True")
                s = ast.While(ast.Constant(True), [ast.If(ast.UnaryOp(ast.Not(), s.test), [ast.Break()], [])] + s.body, [])
            return [s]
        if isinstance(s, ast.Return) and s.value is not None:
            v = s.value
            if isinstance(v, ast.IfExp) and self.coin(.6):
                self.log.append("ternary")
                return [ast.If(v.test, [ast.Return(v.body)], [ast.Return(v.orelse)])]
            if isinstance(v, (ast.ListComp,)) and len(v.generators) == 1 and self.coin(.6):
                return self.loop_of(v) or [s]
            if isinstance(v, ast.BoolOp) and isinstance(v.op, ast.Or) and len(v.values) == 2 and self.coin(.4):
                self.log.append("or -> if")
                n = self.fresh("first")
                return parse("%s = %s\nif %s:\n    return %s\nreturn %s" % (n, U(v.values[0]), n, n, U(v.values[1])))
            k = self.rng.random()
            if k < .2:
                self.log.append("result variable")
                n = self.fresh("result")
                return [ast.Assign([ast.Name(n, ast.Store())], v), ast.Return(name(n))]
            if k < .35 and not isinstance(v, (ast.Name, ast.Constant)):
                return [ast.Return(self.helper(v))]
            return [ast.Return(self.expr(v))]
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            v = s.value
            if isinstance(v, ast.ListComp) and len(v.generators) == 1 and self.coin(.6):
                r = self.loop_of(v, s.targets[0].id)
                if r:
                    return r
            if isinstance(v, ast.IfExp) and self.coin(.6):
                self.log.append("ternary")
                return [ast.If(v.test, [ast.Assign(s.targets, v.body)], [ast.Assign(s.targets, v.orelse)])]
            if self.coin(.15) and not isinstance(v, (ast.Name, ast.Constant)):
                return [ast.Assign(s.targets, self.helper(v))]
            return [ast.Assign(s.targets, self.expr(v))]
        if isinstance(s, (ast.With,)):
            s = copy.copy(s)
            s.body = self.block(s.body)
            return [s]
        if isinstance(s, ast.Try):
            s = copy.copy(s)
            s.body = self.block(s.body)
            return [s]
        return [s]

    def loop_of(self, v, target=None):
        g = v.generators[0]
        names = {n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)}
        if names & (self.locals - self.comp_names) or self.count_comp(names) > 1 or g.is_async:
            return None
        if target is not None and any(isinstance(n, ast.Name) and n.id == target for n in ast.walk(v)):
            return None
        self.log.append("loop for comprehension")
        out = target or self.fresh("found")
        inner = "%s.append(%s)" % (out, U(v.elt))
        ind = "    "
        text = "%s = []\nfor %s in %s:\n" % (out, U(g.target), U(g.iter))
        for c in g.ifs:
            text += ind + "if %s:\n" % U(c)
            ind += "    "
        text += ind + inner + "\n"
        if target is None:
            text += "return %s\n" % out
        return parse(text)

    def count_comp(self, names):
        return 1

    def expr(self, e):
        rw = self

        class T(ast.NodeTransformer):
            def visit_ListComp(self, n):
                self.generic_visit(n)
                if rw.coin(.3):
                    rw.log.append("list(generator)")
                    return ast.Call(name("list"), [ast.GeneratorExp(n.elt, n.generators)], [])
                return n

            def visit_Call(self, n):
                self.generic_visit(n)
                f = n.func
                if isinstance(f, ast.Name) and f.id == "isinstance" and isinstance(n.args[1], ast.Tuple) and rw.coin(.5):
                    rw.log.append("isinstance or")
                    return ast.BoolOp(ast.Or(), [ast.Call(name("isinstance"), [n.args[0], t], []) for t in n.args[1].elts])
                return n
        return T().visit(copy.deepcopy(e))


def targets(prop):
    ev = json.load(open(os.path.join(VERIF, "evidence", prop + ".json")))
    out = set(ev["coverage"]["functions_executed_symbolically"])
    for g in ev["coverage"]["goals"]:
        out.update(g["functions_under_contract"])
    return {t for t in out if t.startswith("MyCapytain")}


def rewrite(root, want, rng):
    log = []
    for dp, dn, fs in os.walk(os.path.join(root, "MyCapytain")):
        for fn in sorted(fs):
            if not fn.endswith(".py"):
                continue
            path = os.path.join(dp, fn)
            mod = os.path.relpath(path, root)[:-3].replace("/", ".")
            if mod.endswith(".__init__"):
                mod = mod[:-9]
            src = open(path).read()
            tree = ast.parse(src)
            helpers, hit = [], False

            def go(node, prefix):
                nonlocal hit
                for ch in node.body if hasattr(node, "body") else []:
                    if isinstance(ch, ast.FunctionDef) and mod + "." + prefix + ch.name in want:
                        r = Rewriter(rng, helpers, prefix.strip(".") or None)
                        r.n = len(helpers) * 100
                        r.params = {a.arg for a in ch.args.args}
                        r.function(ch)
                        if r.log:
                            hit = True
                            log.append((mod + "." + prefix + ch.name, r.log))
                    elif isinstance(ch, ast.ClassDef):
                        go(ch, prefix + ch.name + ".")
            go(tree, "")
            if hit:
                text = U(ast.fix_missing_locations(tree)) + "\n\n\n" + "\n\n".join(helpers)
                open(path, "w").write(text)
    return log


def main(prop, n, first):
    want = targets(prop)
    for seed in range(first, first + n):
        base = "/tmp/refactor.%s.%d" % (prop, seed)
        shutil.rmtree(base, ignore_errors=True)
        shutil.copytree(REPO, base + "/repo", ignore=shutil.ignore_patterns(".git"))
        log = rewrite(base + "/repo", want, random.Random("%s/%d" % (prop, seed)))
        env = dict(os.environ, PYVC_REPO=base + "/repo", PYVC_OUT=base, VERIF_SEED="1")
        p = subprocess.run([sys.executable, "-B", os.path.join(VERIF, "check.py"), prop, "quick"], env=env, capture_output=True, text=True)
        print("%s seed %d: exit %d, %d functions rewritten" % (prop, seed, p.returncode, len(log)))
        if p.returncode:
            print("\n".join(l[:1200] for l in (p.stdout + p.stderr[-1500:]).split("\n")[-14:]))
            for f, l in log:
                print("     ", f, l)
        else:
            shutil.rmtree(base)
        sys.stdout.flush()


if __name__ == "__main__":
    main(sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 1, int(sys.argv[3]) if len(sys.argv) > 3 else 0)
