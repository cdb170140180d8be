#!/usr/bin/env python3
"""Mutation campaign: small changes of the library that pass the stable tests, and which checks notice them.

mutate.py OUT.jsonl N SEED [file ...]   (run from a copy of /verif; results are appended to OUT.jsonl)
"""
import ast, json, multiprocessing, os, random, shutil, subprocess, sys

HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
ENV = dict(os.environ, PYTHONNOUSERSITE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
P = "enterprise/"
S = P + "signals/"
CHECKS = {
    P + "pulsar.py": "C08:500 C09:500 C10:350 C05:300 C06:300 C07:200",
    P + "pulsar_inflate.py": "C05:600 C06:600 C07:600",
    S + "parameter.py": "C14:700 C12:700 C01:300 C03:300 C04:200 C11:120",
    S + "signal_base.py": "C19:350 C01:350 C03:350 C02:250 C04:200 C13:120 C11:120",
    S + "gp_signals.py": "C19:350 C01:350 C04:250 C13:120 C03:250 C02:250 C11:120",
    S + "gp_bases.py": "C19:350 C01:350 C11:200 C04:200",
    S + "gp_priors.py": "C01:350 C14:500 C12:500",
    S + "white_signals.py": "C19:350 C01:350 C03:250 C02:250 C04:200",
    S + "deterministic_signals.py": "C01:350 C03:250 C02:250 C04:200",
    S + "selections.py": "C01:350 C04:250",
    S + "utils.py": "C19:350 C01:350 C13:200 C11:150 C02:250",
}
SKIPFN = {"get_edot", "get_Fdot", "get_gammadot", "get_coupled_constecc_eqns", "get_coupled_ecc_eqns", "solve_coupled_constecc_solution", "solve_coupled_ecc_solution", "get_an", "get_bn", "get_cn", "calculate_splus_scross", "make_ecc_interpolant", "anis_orf", "linear_interp_basis", "euler_vec", "ss_framerotate", "ecl2eq_vec", "eq2ecl_vec", "dmass", "get_planet_orbital_elements", "summary", "__repr__", "docstring", "create_gw_antenna_pattern", "physicalephem_spectrum"}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}


def mutants(src):
    tree = ast.parse(src)
    lines = src.split("\n")
    off = [0]
    for ln in lines:
        off.append(off[-1] + len(ln.encode()) + 1)
    b = src.encode()

    def pos(n, end=False):
        return off[(n.end_lineno if end else n.lineno) - 1] + (n.end_col_offset if end else n.col_offset)

    def seg(n):
        return b[pos(n) : pos(n, True)].decode()

    out = []

    def add(n, new, what, fn):
        out.append((n.lineno, what, fn, (b[: pos(n)] + new.encode() + b[pos(n, True) :]).decode()))

    def walk(n, fn, depth):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            if n.name in SKIPFN:
                return
            fn = (fn + "." if fn else "") + n.name
            for d in n.decorator_list:
                if isinstance(n, ast.FunctionDef):
                    s = pos(d)
                    ls = b.rfind(b"\n", 0, s) + 1
                    le = b.find(b"\n", pos(d, True)) + 1
                    out.append((d.lineno, "decorator removed", fn, (b[:ls] + b[le:]).decode()))
            body = n.body
            for st in body:
                walk(st, fn, depth + 1)
            for x in ([n.args] if isinstance(n, ast.FunctionDef) else []):
                for d in x.defaults:
                    walk(d, fn, depth + 1)
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if depth == 0 and isinstance(n, (ast.Import, ast.ImportFrom, ast.Try)):
            return
        if isinstance(n, ast.Raise):
            add(n, "pass", "raise removed", fn)
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            add(n, "%s %s %s" % (seg(n.left), CMP[type(n.ops[0])], seg(n.comparators[0])), "comparison", fn)
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            add(n, "(%s) %s (%s)" % (seg(n.left), BIN[type(n.op)], seg(n.right)), "arithmetic", fn)
        if isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            add(n, op.join("(%s)" % seg(v) for v in n.values), "and/or", fn)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            add(n, seg(n.operand), "unary removed", fn)
        if isinstance(n, ast.Constant) and not isinstance(n.value, str):
            if isinstance(n.value, bool):
                add(n, str(not n.value), "constant", fn)
            elif isinstance(n.value, int):
                add(n, str(n.value + 1), "constant", fn)
            elif isinstance(n.value, float):
                add(n, repr(n.value * 1.03 + 0.0), "constant", fn)
        if isinstance(n, (ast.If, ast.IfExp)):
            add(n.test, "not (%s)" % seg(n.test), "condition negated", fn)
        if isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Attribute) and f.attr in ("copy", "flatten", "ravel", "tocsc", "astype", "squeeze") and not n.keywords:
                add(n, seg(f.value), "." + f.attr + "() removed", fn)
            elif isinstance(f, ast.Attribute) and f.attr in ("array", "asarray", "sort", "unique", "ascontiguousarray") and len(n.args) == 1 and seg(f.value) == "np":
                add(n, seg(n.args[0]), "np." + f.attr + " removed", fn)
            elif isinstance(f, ast.Name) and f.id in ("sorted", "list", "dict", "tuple", "set", "deepcopy") and len(n.args) == 1:
                add(n, seg(n.args[0]), f.id + "() removed", fn)
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args[:2]):
                a0, a1 = n.args[:2]
                out.append((n.lineno, "arguments swapped", fn, (b[: pos(a0)] + seg(a1).encode() + b[pos(a0, True) : pos(a1)] + seg(a0).encode() + b[pos(a1, True) :]).decode()))
            for k in n.keywords:
                if k.arg:
                    s, e = pos(k.value) - len(k.arg) - 1, pos(k.value, True)
                    rest = b[e:].lstrip()
                    if rest.startswith(b","):
                        e = len(b) - len(rest) + 1
                    out.append((k.value.lineno, "keyword %s removed" % k.arg, fn, (b[:s] + b[e:]).decode()))
        if isinstance(n, (ast.List, ast.Tuple)) and len(n.elts) >= 2 and isinstance(n.ctx, ast.Load):
            j = len(n.elts) - 1
            add(n.elts[j], seg(n.elts[0]), "last element replaced", fn)
        if depth > 0 and isinstance(n, (ast.Expr, ast.AugAssign, ast.Delete)):
            add(n, "pass", "statement removed", fn)
        if depth > 0 and isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            add(n, "pass", "assignment removed", fn)
        if depth > 0 and isinstance(n, ast.AugAssign):
            add(n, "%s = %s" % (seg(n.target), seg(n.value)), "augmented assignment", fn)
            if isinstance(n.op, (ast.Add, ast.Mult, ast.Div, ast.Sub)):
                o = {ast.Add: "+", ast.Mult: "*", ast.Div: "/", ast.Sub: "-"}[type(n.op)]
                add(n, "%s = %s %s (%s)" % (seg(n.target), seg(n.target), o, seg(n.value)), "not in place", fn)
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and isinstance(n.slice, ast.Slice) and seg(n.slice) == ":":
            add(n, seg(n.value), "[:] removed", fn)
        for c in ast.iter_child_nodes(n):
            walk(c, fn, depth)

    for n in tree.body:
        walk(n, "", 0)
    seen, res = set(), []
    norm = ast.dump(tree)
    for m in out:
        try:
            d = ast.dump(ast.parse(m[3]))
        except SyntaxError:
            continue
        if d == norm or d in seen:
            continue
        seen.add(d)
        res.append(m)
    return res


def init(q):
    global W
    k = q.get()
    W = "/tmp/mutwork/r%d" % k
    shutil.rmtree(W, ignore_errors=True)
    os.makedirs("/tmp/mutwork", exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", W], check=True)


STABLE = json.load(open("/opt/vp/BASELINE.json"))["stable"]


def one(job):
    f, line, what, fn, text, old = job
    p = os.path.join(W, f)
    good = open(os.path.join("/repo", f)).read()
    open(p, "w").write(text)
    try:
        r = {"file": f, "line": line, "what": what, "fn": fn, "src": good.split("\n")[line - 1].strip()}
        import difflib

        r["diff"] = [x for x in difflib.unified_diff(good.split("\n"), text.split("\n"), n=0, lineterm="") if x[:1] in "+-" and x[:3] not in ("+++", "---")]
        r["result"] = "SURVIVED"
        for c in CHECKS[f].split():
            c, n = c.split(":")
            q = subprocess.run(["python3", V + "/check.py", c], env=dict(ENV, SIM_REPO=W, SIM_WORKERS="1", SIM_RUNS=n, SIM_MIN="0", VERIF_SEED="3"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if q.returncode == 1:
                o = [x for x in q.stdout.split("\n") if x.startswith("violated")]
                r["result"] = c
                r["kind"] = (o or ["?"])[0][:200]
                return r
            if q.returncode != 0:
                r.setdefault("odd", []).append(c + q.stdout[-300:])
        out = W + ".json"
        try:
            subprocess.run("/opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=120 --continue-on-collection-errors -o junit_family=xunit2 --junitxml=%s.xml tests; python3 /opt/vp/results.py %s junit:%s.xml" % (W, out, W), shell=True, cwd=W, env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=400)
            passed = set(json.load(open(out))["passed"])
        except Exception:
            passed = set()
        if [x for x in STABLE if x not in passed]:
            r["result"] = "tests"
            return r
        return r
    finally:
        open(p, "w").write(good)


def main():
    out, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    files = sys.argv[4:] or list(CHECKS)
    done = set()
    if os.path.exists(out):
        for x in open(out):
            x = json.loads(x)
            done.add(json.dumps([x["file"], x["diff"]]))
    jobs = []
    for f in files:
        src = open(os.path.join("/repo", f)).read()
        ms = mutants(src)
        jobs += [(f, *m, src) for m in ms]
    print(len(jobs), "mutants")
    random.Random(seed).shuffle(jobs)
    jobs = jobs[:n]
    q = multiprocessing.Queue()
    nw = int(os.environ.get("MUT_WORKERS", "7"))
    for k in range(nw):
        q.put(k)
    with multiprocessing.Pool(nw, init, (q,)) as pool, open(out, "a") as o:
        for r in pool.imap_unordered(one, jobs):
            o.write(json.dumps(r) + "\n")
            o.flush()
    for k in range(nw):
        shutil.rmtree("/tmp/mutwork/r%d" % k, ignore_errors=True)


if __name__ == "__main__":
    main()
