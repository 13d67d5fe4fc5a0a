"""Self-test: apply small mutations to the functions a property's goals name, in scratch copies, and run its check.

python3-vt -B tools/mutate.py C05 [max] [jobs] -- prints the mutants the check does not report."""
import ast, importlib, inspect, os, random, shutil, subprocess, sys, textwrap
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path[:0] = ["/repo", VERIF]
sys.path.append("/opt/venv/lib/python3.12/site-packages")
from concurrent.futures import ThreadPoolExecutor


def unwrap(f):
    if isinstance(f, property):
        return f.fget
    if isinstance(f, (staticmethod, classmethod)):
        return f.__func__
    return getattr(f, "__func__", f)


def mutants(path, fnode, src):
    lines = src.split("\n")
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()) + 1)
    raw = src.encode()

    def seg(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    def rep(n, text, what):
        a, b = seg(n)
        return (raw[:a] + text.encode() + raw[b:]).decode(), "%s:%d %s" % (os.path.basename(path), n.lineno, what)
    U = ast.unparse
    for n in ast.walk(fnode):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            alt = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.In: "not in",
                   ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}[type(n.ops[0])]
            yield rep(n, "(%s %s %s)" % (U(n.left), alt, U(n.comparators[0])), "compare -> " + alt)
            if isinstance(n.comparators[0], ast.Constant) and n.comparators[0].value in (None, True) and isinstance(n.ops[0], (ast.Is, ast.IsNot)):
                yield rep(n, "(%s%s)" % ("not " if (n.comparators[0].value is None) == isinstance(n.ops[0], ast.Is) else "", U(n.left)), "truth instead of is")
        elif isinstance(n, ast.BoolOp):
            alt = " or " if isinstance(n.op, ast.And) else " and "
            yield rep(n, "(" + alt.join("(%s)" % U(v) for v in n.values) + ")", "bool op ->" + alt)
            for v in n.values:
                rest = [w for w in n.values if w is not v]
                op = " and " if isinstance(n.op, ast.And) else " or "
                yield rep(n, "(" + op.join("(%s)" % U(w) for w in rest) + ")", "drop operand " + U(v)[:40])
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            yield rep(n, "(%s)" % U(n.operand), "drop not")
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            yield rep(n, str(not n.value), "flip constant")
        elif isinstance(n, ast.Constant) and isinstance(n.value, int):
            yield rep(n, str(n.value + 1), "constant+1")
            yield rep(n, "(%d)" % (n.value - 1), "constant-1")
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            yield rep(n, "(%s %s %s)" % (U(n.left), "-" if isinstance(n.op, ast.Add) else "+", U(n.right)), "+/-")
        elif isinstance(n, ast.IfExp):
            yield rep(n, "(%s)" % U(n.body), "if-exp body")
            yield rep(n, "(%s)" % U(n.orelse), "if-exp else")
        elif isinstance(n, ast.If):
            yield rep(n.test, "True", "if True")
            yield rep(n.test, "False", "if False")
            t = n.test
            if isinstance(t, (ast.Name, ast.Attribute)):
                yield rep(t, "(%s is not None)" % U(t), "not None instead of truth")
            elif isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) and isinstance(t.operand, (ast.Name, ast.Attribute)):
                yield rep(t, "(%s is None)" % U(t.operand), "None instead of truth")
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Return, ast.Raise)) and not (
                isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            if isinstance(n, ast.Return):
                if n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
                    yield rep(n, "return None", "return None instead of " + U(n)[:50])
            else:
                yield rep(n, "pass", "delete " + U(n)[:50])


def main(prop, limit, jobs):
    M = importlib.import_module("contracts." + prop.lower()).M
    seen, out = set(), []
    for g in M.goals:
        for f in g.of:
            f = unwrap(f)
            if not hasattr(f, "__code__"):
                continue
            path = f.__code__.co_filename
            key = (path, f.__code__.co_firstlineno)
            if key in seen or not path.startswith("/repo/"):
                continue
            seen.add(key)
            src = open(path).read()
            tree = ast.parse(src)
            node = [n for n in ast.walk(tree) if isinstance(n, ast.FunctionDef) and
                    min([n.lineno] + [d.lineno for d in n.decorator_list]) == key[1]][0]
            texts = set()
            for text, what in mutants(path, node, src):
                if text == src or text in texts:
                    continue
                texts.add(text)
                try:
                    compile(text, path, "exec")
                except SyntaxError:
                    continue
                out.append((path, text, f.__qualname__ + " " + what))
    if len(sys.argv) > 4:
        out = [o for o in out if sys.argv[4] in o[2]]
    random.Random(5).shuffle(out)
    total = len(out)
    out = out[:limit]

    def run(job):
        i, (path, text, what) = job
        d = "/tmp/mut/%s_%d" % (prop, i)
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree("/repo", d, ignore=shutil.ignore_patterns(".git", "doc", "docs", "*.pyc"))
        with open(path.replace("/repo", d, 1), "w") as f:
            f.write(text)
        env = dict(os.environ, PYVC_REPO=d, PYVC_OUT=d + "/out")
        r = subprocess.run(["timeout", "600", "python3-vt", "-B", VERIF + "/check.py", prop, "quick"], env=env, capture_output=True, text=True)
        shutil.rmtree(d, ignore_errors=True)
        v = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]
        return what, r.returncode, v, r.stderr[-300:]
    with ThreadPoolExecutor(jobs) as pool:
        res = list(pool.map(run, enumerate(out)))
    caught = [r for r in res if r[1] == 1 and r[2]]
    soft = [r for r in caught if all("no-failing-input" in l for l in r[2])]
    print(prop, "mutants run", len(res), "of", total, "caught", len(caught), "without input", len(soft))
    for r in res:
        if r not in caught:
            print("  SURVIVES", r[0], r[1], r[3])
    for r in soft:
        print("  no input:", r[0])


main(sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 60, int(sys.argv[3]) if len(sys.argv) > 3 else 4)
