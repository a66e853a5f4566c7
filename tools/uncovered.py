"""functions of the package that no unit covers"""
import ast, os, sys
sys.path.insert(0, "/verif")
from pyvc import run
cov = {f for u in run.load_all() for f in u.functions}
n = t = 0
for d, _, fs in os.walk("/repo/pylops_mpi"):
    for f in sorted(fs):
        if not f.endswith(".py"):
            continue
        mod = os.path.relpath(os.path.join(d, f), "/repo")[:-3].replace("/", ".")
        def walk(node, pre):
            global n, t
            for x in node.body:
                if isinstance(x, ast.ClassDef):
                    walk(x, pre + x.name + ".")
                elif isinstance(x, ast.FunctionDef):
                    t += 1
                    k = f"{mod}.{pre}{x.name}"
                    if k not in cov:
                        n += 1
                        print(k, x.end_lineno - x.lineno + 1)
        walk(ast.parse(open(os.path.join(d, f)).read()), "")
print(n, "of", t, "not covered")
