'''Development tool: mutants of /repo/src/bibleref that pass the stable tests, against the checks.

usage: mutate.py gen OUT.json | tests IN.json OUT.json | checks IN.json OUT.json SCALE [ids...]
Works in /tmp/mut only.
'''
import ast, concurrent.futures as cf, json, os, random, shutil, subprocess, sys, tempfile
SRC = "/repo/src/bibleref"
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, LANG="C.UTF-8", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
           PYTHONPYCACHEPREFIX="/nonexistent/pycache")
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.GtE], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.LtE],
       ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot],
       ast.IsNot: [ast.Is]}


def mutants(path):
    src = open(path).read()
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    b = src.encode()
    tree = ast.parse(src)
    out = []

    def span(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def add(n, text, kind):
        i, j = span(n)
        if b[i:j].decode() != text:
            out.append({"file": os.path.basename(path), "i": i, "j": j, "new": text, "line": n.lineno, "kind": kind,
                        "old": b[i:j].decode()[:80]})

    def walk(n, fn):
        for c in ast.iter_child_nodes(n):
            f2 = fn
            if isinstance(c, (ast.FunctionDef,)):
                f2 = c.name
            if isinstance(c, ast.Assign) and fn is None:
                continue            # data tables
            visit(c, f2, n)
            walk(c, f2)

    def visit(n, fn, parent):
        U = ast.unparse
        if isinstance(n, ast.Compare):
            for k, op in enumerate(n.ops):
                for new in CMP.get(type(op), []):
                    c = ast.Compare(n.left, list(n.ops), n.comparators)
                    c.ops[k] = new()
                    add(n, "(" + U(c) + ")", "cmp")
        elif isinstance(n, ast.BoolOp):
            new = ast.Or() if isinstance(n.op, ast.And) else ast.And()
            add(n, "(" + U(ast.BoolOp(new, n.values)) + ")", "bool")
            for k in range(len(n.values)):
                rest = n.values[:k] + n.values[k + 1:]
                add(n, "(" + U(rest[0] if len(rest) == 1 else ast.BoolOp(n.op, rest)) + ")", "dropterm")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, "(" + U(n.operand) + ")", "not")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            add(n, "(" + U(n.operand) + ")", "neg")
        elif isinstance(n, ast.Constant) and fn is not None:
            if isinstance(n.value, bool):
                add(n, str(not n.value), "const")
            elif isinstance(n.value, int):
                add(n, str(n.value + 1), "const")
                add(n, str(n.value - 1) if n.value else "(-1)", "const")
            elif isinstance(n.value, str) and not isinstance(parent, ast.Expr) and len(n.value) <= 3:
                add(n, repr(""), "const") if n.value else None
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            add(n, "(" + U(ast.BinOp(n.left, ast.Sub() if isinstance(n.op, ast.Add) else ast.Add(), n.right)) + ")", "arith")
        elif isinstance(n, ast.AugAssign) and isinstance(n.op, (ast.Add, ast.Sub)):
            add(n, U(ast.AugAssign(n.target, ast.Sub() if isinstance(n.op, ast.Add) else ast.Add(), n.value)), "arith")
        elif isinstance(n, ast.Call):
            for k, w in enumerate(n.keywords):
                c = ast.Call(n.func, n.args, n.keywords[:k] + n.keywords[k + 1:])
                add(n, U(c), "dropkw")
            if len(n.args) == 2:
                add(n, U(ast.Call(n.func, n.args[::-1], n.keywords)), "swapargs")
            if isinstance(n.func, ast.Name) and n.func.id in ("min", "max"):
                add(n, U(ast.Call(ast.Name({"min": "max", "max": "min"}[n.func.id]), n.args, n.keywords)), "minmax")
            if isinstance(n.func, ast.Name) and n.func.id in ("list", "tuple", "BibleRangeList", "reversed") and len(n.args) == 1:
                add(n, U(n.args[0]), "dropcall")
        elif isinstance(n, (ast.If, ast.While)):
            add(n.test, "False", "iffalse")
            if isinstance(n, ast.If):
                add(n.test, "True", "iftrue")
        elif isinstance(n, ast.IfExp):
            add(n, "(" + U(n.body) + ")", "ifexp")
            add(n, "(" + U(n.orelse) + ")", "ifexp")
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            sw = {"start": "end", "end": "start", "prev": "next", "next": "prev", "prev_group": "next_group",
                  "next_group": "prev_group", "first": "last", "last": "first", "head": "tail", "tail": "head",
                  "chap_num": "verse_num", "verse_num": "chap_num", "abbrev": "title", "title": "abbrev",
                  "MULTIBOOK": "VERSE_0", "VERSE_0": "MULTIBOOK"}
            if n.attr in sw:
                add(n, U(ast.Attribute(n.value, sw[n.attr], ast.Load())), "attr")
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise, ast.Break, ast.Continue, ast.Delete)) and fn is not None:
            if not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
                add(n, "pass", "delstmt")
        if isinstance(n, ast.Return) and n.value is not None:
            add(n, "return None", "retnone")
        if isinstance(n, ast.Assign) and fn is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            if len(n.targets) == 1 and isinstance(n.targets[0], (ast.Name, ast.Attribute)):
                add(n, ast.unparse(n.targets[0]) + " = None", "assignnone")
    walk(tree, None)
    seen, res = set(), []
    for x in out:
        k = (x["i"], x["j"], x["new"])
        if k not in seen:
            seen.add(k)
            try:
                ast.parse((b[:x["i"]] + x["new"].encode() + b[x["j"]:]).decode())
                res.append(x)
            except SyntaxError:
                pass
    return res


def tree_of(x):
    d = tempfile.mkdtemp(dir="/tmp/mut")
    shutil.copytree(os.environ.get("MUT_SRC", "/repo/src"), d + "/src", ignore=shutil.ignore_patterns("__pycache__"))
    p = f"{d}/src/bibleref/{x['file']}"
    b = open(p, "rb").read()
    open(p, "wb").write(b[:x["i"]] + x["new"].encode() + b[x["j"]:])
    return d


def run(cmd, cwd, env, t):
    p = subprocess.Popen(cmd, shell=True, cwd=cwd, env=env, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         start_new_session=True)
    try:
        out, _ = p.communicate(timeout=t)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return -9, ""


STABLE = None


def test_one(x):
    d = tree_of(x)
    try:
        shutil.copytree("/repo/test", d + "/test", ignore=shutil.ignore_patterns("__pycache__"))
        for f in os.listdir("/repo"):
            if os.path.isfile("/repo/" + f):
                shutil.copy("/repo/" + f, d)
        rc, out = run(f"ulimit -v 4000000; exec {PY} -m pytest -q -x -p no:cacheprovider --timeout=20 "
                      "--deselect test/test_reference.py::TestBibleReference::test_bible_verses "
                      "--deselect test/test_util.py::TestGroupedList::test_group_insert_at_index test",
                      d, dict(ENV, PYTHONPATH=d + "/src"), 60)
        return x if rc == 0 else None
    finally:
        shutil.rmtree(d, ignore_errors=True)


ORDER = "C17 C18 C24 C06 C21 C19 C07 C08 C01 C02 C03 C04 C05 C09 C10 C11 C23 C25 C13 C12 C22 C15 C14 C20 C26 C27 C16".split()


def check_one(x, scale, ids):
    d = tree_of(x)
    try:
        if scale < 0:
            rc, out = run(f"{PY} -W ignore {os.path.dirname(os.path.abspath(__file__))}/sweep.py "
                          + os.environ.get("SWEEP", "0.3,2") + " " + " ".join(ids), d,
                          dict(ENV, MON_REPO_SRC=d + "/src"), 600)
            out = out.strip().splitlines() or ["?"]
            if out[-1].startswith("CAUGHT"):
                return dict(x, caught=out[-1].split()[1], msg=out[-1])
            if out[-1].startswith("SURVIVED"):
                return dict(x, caught=None)
            return dict(x, caught="ERR", msg=out[-1][:300], rc=rc)
        bad = []
        for pid in ids:
            rc, out = run(f"./check.sh {pid} quick", os.environ.get("MON_VERIF", "/verif"),
                          dict(ENV, MON_REPO_SRC=d + "/src", MON_SHARDS="1", MON_SCALE=str(scale)), 1500)
            if rc == 1 and "VIOLATION" in out:
                return dict(x, caught=pid, msg=out.splitlines()[1][:200])
            if rc != 0:
                bad.append((pid, rc, out[-200:]))
                return dict(x, caught="ERR " + pid, msg=out[-300:], rc=rc)
        return dict(x, caught=None)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    global STABLE
    STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    os.makedirs("/tmp/mut", exist_ok=True)
    if sys.argv[1] == "gen":
        out = []
        for f in ("ref", "util", "parser", "data", "__init__"):
            out += mutants(f"{SRC}/{f}.py")
        json.dump(out, open(sys.argv[2], "w"))
        print(len(out))
        return
    xs = json.load(open(sys.argv[2]))
    ids = sys.argv[5:] or ORDER
    fn = test_one if sys.argv[1] == "tests" else lambda x: check_one(x, float(sys.argv[4]), ids)
    out = []
    with cf.ThreadPoolExecutor(int(os.environ.get("MUT_JOBS", "8"))) as ex:
        for k, r in enumerate(ex.map(fn, xs)):
            if r is not None:
                out.append(r)
            if k % 10 == 0:
                json.dump(out, open(sys.argv[3], "w"))
                print(k, len(out), sum(1 for o in out if o.get("caught") is None), flush=True)
                json.dump(out, open(sys.argv[3], "w"), indent=0)
    json.dump(out, open(sys.argv[3], "w"), indent=0)
    print("done", len(xs), len(out), "uncaught", sum(1 for o in out if not o.get("caught")))


main()
