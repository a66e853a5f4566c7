"""mutation campaign: python3-vt tools/mutate.py OUT.jsonl N SEED [file substring...]
mutants of the package run in scratch copies under the bounded sweeps of the properties whose units cover the function;
prints the mutants no sweep noticed (equivalent ones and blind spots)."""
import ast, sys, os, random, json, subprocess, shutil, tempfile, time
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, "/verif")
SRC = "/tmp/mutsrc"

OPS = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">="], ast.Gt: [">=", "<"], ast.GtE: [">", "<="], ast.Eq: ["!="], ast.NotEq: ["=="],
       ast.In: ["not in"], ast.NotIn: ["in"], ast.Is: ["is not"], ast.IsNot: ["is"],
       ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/", "+"], ast.Div: ["*"], ast.FloorDiv: ["/"], ast.Mod: ["//"], ast.Pow: ["*"]}


def text(lines, n):
    if n.lineno == n.end_lineno:
        return lines[n.lineno - 1][n.col_offset:n.end_col_offset]
    return "\n".join([lines[n.lineno - 1][n.col_offset:]] + lines[n.lineno:n.end_lineno - 1] + [lines[n.end_lineno - 1][:n.end_col_offset]])


def mutants(path, rel):
    src = open(path).read()
    lines = src.split("\n")
    tree = ast.parse(src)
    for n in ast.walk(tree):
        for ch in ast.iter_child_nodes(n):
            ch.parent = n
    out = []

    def func(n):
        names = []
        while hasattr(n, "parent"):
            n = n.parent
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                names.append(n.name)
        return ".".join(reversed(names))

    def add(n, new, kind):
        out.append({"file": rel, "line": n.lineno, "span": [n.lineno, n.col_offset, n.end_lineno, n.end_col_offset], "new": new, "old": text(lines, n)[:200], "func": func(n), "kind": kind})
    for n in ast.walk(tree):
        f = func(n)
        if not f or f.endswith(("__repr__", "__init__._print")):
            continue
        p = getattr(n, "parent", None)
        anc = n
        skip = False
        while hasattr(anc, "parent"):
            anc = anc.parent
            if isinstance(anc, (ast.JoinedStr, ast.Raise)) or isinstance(anc, ast.arguments) and False:
                skip = True
        if skip:
            continue
        u = lambda x: text(lines, x)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in OPS.get(type(n.ops[0]), []):
                add(n, f"{u(n.left)} {o} {u(n.comparators[0])}", "compare")
        elif isinstance(n, ast.BinOp) and type(n.op) in OPS:
            for o in OPS[type(n.op)][:1]:
                add(n, f"{u(n.left)} {o} {u(n.right)}", "arith")
        elif isinstance(n, ast.BoolOp):
            o = " or " if isinstance(n.op, ast.And) else " and "
            add(n, o.join("(" + u(v) + ")" for v in n.values), "bool")
            for i in range(len(n.values)):
                add(n, ((" and " if isinstance(n.op, ast.And) else " or ").join(u(v) for j, v in enumerate(n.values) if j != i)), "drop clause")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            add(n, u(n.operand), "unary")
        elif isinstance(n, ast.Constant) and not isinstance(p, ast.Expr):
            if isinstance(n.value, bool):
                add(n, str(not n.value), "const")
            elif isinstance(n.value, int):
                add(n, str(n.value + 1), "const")
                if n.value:
                    add(n, str(n.value - 1), "const")
            elif n.value is None:
                pass
        elif isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("conj", "copy", "ravel", "flatten", "conjugate") :
                if not n.args:
                    add(n, u(n.func.value), "drop call")
                elif len(n.args) == 1:
                    add(n, u(n.args[0]), "drop call")
            for i, k in enumerate(n.keywords):
                if k.arg:
                    parts = [u(a) for a in n.args] + [f"{q.arg}={u(q.value)}" if q.arg else "**" + u(q.value) for j, q in enumerate(n.keywords) if j != i]
                    add(n, f"{u(n.func)}({', '.join(parts)})", f"drop keyword {k.arg}")
            if len(n.args) >= 2:
                a = [u(x) for x in n.args]
                a[0], a[1] = a[1], a[0]
                add(n, f"{u(n.func)}({', '.join(a + [(q.arg + '=' if q.arg else '**') + u(q.value) for q in n.keywords])})", "swap args")
        elif isinstance(n, (ast.Assign, ast.AugAssign)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
            add(n, "pass", "drop statement")
        elif isinstance(n, ast.If):
            add(n.test, "True", "if true")
            add(n.test, "False", "if false")
        elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self" and isinstance(n.ctx, ast.Load):
            sw = {"local_shape": "global_shape", "global_shape": "local_shape", "sub_comm": "base_comm", "base_comm": "sub_comm", "dims": "dimsd", "dimsd": "dims", "nx": "ny", "ny": "nx",
                  "local_shapes_m": "local_shapes_n", "local_shapes_n": "local_shapes_m"}
            if n.attr in sw:
                add(n, "self." + sw[n.attr], "attribute")
    return out


def apply(m, root):
    p = os.path.join(root, m["file"])
    lines = open(p).read().split("\n")
    a, b, c, d = m["span"]
    pre = "\n".join(lines[:a - 1] + [lines[a - 1][:b]])
    post = "\n".join([lines[c - 1][d:]] + lines[c:])
    s = pre + m["new"] + post
    ast.parse(s)
    open(p, "w").write(s)


def main():
    out, N, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    subs = sys.argv[4:]
    shutil.rmtree(SRC, ignore_errors=True)
    os.makedirs(SRC)
    subprocess.run(f"git -C /repo archive HEAD pylops_mpi | tar x -C {SRC}", shell=True, check=True)
    from pyvc import run
    cover = {}
    for u in run.load_all():
        for f in u.functions:
            for p in u.props:
                cover.setdefault(f, {}).setdefault(p, 0)
                cover[f][p] += 1
    ms = []
    for d, _, fs in os.walk(SRC + "/pylops_mpi"):
        for f in fs:
            if f.endswith(".py") and f != "__init__.py" and "plotting" not in d + f:
                rel = os.path.relpath(os.path.join(d, f), SRC)
                if not subs or any(s in rel for s in subs):
                    ms += mutants(os.path.join(d, f), rel)
    random.Random(seed).shuffle(ms)
    done = set()
    if os.path.exists(out):
        for l in open(out):
            r = json.loads(l)
            done.add((r["file"], tuple(r["span"]), r["new"]))
    ms = [m for m in ms if (m["file"], tuple(m["span"]), m["new"]) not in done][:N]
    print(len(ms), "mutants")
    env0 = {k: v for k, v in os.environ.items() if k != "PYTHONPATH"}

    def one(m):
        mod = m["file"][:-3].replace("/", ".")
        key = f"{mod}.{m['func']}"
        cand = [k for k in cover if key == k or key.startswith(k + ".") or k.startswith(key + ".")]
        props = {}
        for k in cand:
            for p, n in cover[k].items():
                props[p] = props.get(p, 0) + n
        ps = sorted(props, key=lambda p: (p in ("C05", "C19"), -props[p]))[:5] or ["none"]
        root = tempfile.mkdtemp(prefix="mut", dir="/tmp")
        try:
            shutil.copytree(SRC + "/pylops_mpi", root + "/pylops_mpi")
            try:
                apply(m, root)
            except SyntaxError:
                m["result"] = "syntax"
                return m
            m["props"] = ps
            m["result"] = "missed" if ps != ["none"] else "not covered"
            for p in ps:
                if p == "none":
                    break
                try:
                    r = subprocess.run(["/opt/venv/bin/python", "/verif/rac/driver.py", "sweep", p, "8", "m1"], cwd="/verif/rac", env=dict(env0, VERIF_REPO=root), capture_output=True, text=True, timeout=200)
                    res = [json.loads(l[7:]) for l in r.stdout.splitlines() if l.startswith("RESULT ")]
                except subprocess.TimeoutExpired:
                    m["result"] = f"timeout {p}"
                    return m
                if not res:
                    m["result"] = f"no result {p}: {r.stderr[-200:]}"
                    return m
                if res[0]["failures"]:
                    m["result"] = f"caught {p}"
                    m["what"] = res[0]["failures"][0]["what"][:200]
                    return m
                if res[0]["harness"]:
                    m["result"] = f"harness {p}: {str(res[0]['harness'][0])[:200]}"
            return m
        finally:
            shutil.rmtree(root, ignore_errors=True)
    with ThreadPoolExecutor(7) as ex, open(out, "a") as f:
        for m in ex.map(one, ms):
            f.write(json.dumps(m) + "\n")
            f.flush()


if __name__ == "__main__":
    main()
