"""Mutation campaign (run by hand): makes syntactic mutants of the modules the properties are anchored in, in a scratch copy
of /repo, runs the checks against each and lists the survivors.

  python3 tools/mutate.py --scratch /tmp/mutants [--only edpyt/dmft.py] [--every 3] [--offset 0] [--cap 25] > log
"""
import argparse
import ast
import os
import re
import shutil
import subprocess
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {
    "edpyt/vector_transpose.py": "C01", "edpyt/matvec_product.py": "C02 C03", "edpyt/lanczos.py": "C03 C11", "edpyt/tridiag.py": "C11 C03",
    "edpyt/observs.py": "C04 C11", "edpyt/nano_dmft.py": "C05 C18 C12", "edpyt/integrate_gf.py": "C05 C12", "edpyt/psparse.pyx": "C06",
    "edpyt/cs_gaxpy.c": "C06", "edpyt/continued_fraction.pyx": "C07", "edpyt/ham_local.py": "C08", "edpyt/ham_hopping.py": "C08",
    "edpyt/ham_non_local.py": "C08", "edpyt/build_mb_ham.py": "C08 C02", "edpyt/eigh_arpack.py": "C09 C15", "edpyt/fit_cffi.py": "C10",
    "edpyt_backend/fit_wrap.py": "C10", "edpyt_backend/fit.c": "C10", "edpyt_backend/bath.c": "C10", "edpyt_backend/util.c": "C10",
    "edpyt_backend/frprmn.c": "C10", "edpyt_backend/dlinmin.c": "C10", "edpyt/gf_lanczos.py": "C11 C07", "edpyt/gf_exact.py": "C11 C14 C16",
    "edpyt/dmft.py": "C12 C18 C17", "edpyt/gf2_lanczos.py": "C13", "edpyt/gf2_exact.py": "C13", "edpyt/espace.py": "C15 C11", "edpyt/sector.py": "C15 C11",
    "edpyt/lookup.py": "C15 C08 C11 C16", "edpyt/operators.py": "C11 C08", "edpyt/dedlib.py": "C14", "edpyt/sqtunneling.py": "C16",
    "edpyt/cotunneling.py": "C16", "edpyt/sqtnl.py": "C16", "edpyt/cotnl.py": "C16", "edpyt/rates.py": "C16", "edpyt/fit_cg.py": "C17 C12",
    "edpyt/shared.py": "C08",
}
CMP = {ast.Lt: ["<="], ast.LtE: ["<"], ast.Gt: [">="], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"]}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "*", ast.Mod: "//", ast.Pow: "*", ast.BitOr: "&", ast.BitAnd: "|",
       ast.BitXor: "|", ast.LShift: ">>", ast.RShift: "<<"}


def py_mutants(src):
    """(line, what, new source) for every mutation point."""
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    start = [0]
    for l in lines:
        start.append(start[-1] + len(l.encode()))
    raw = src.encode()

    def at(line, col):
        return start[line - 1] + col

    def span(n):
        return at(n.lineno, n.col_offset), at(n.end_lineno, n.end_col_offset)

    def put(a, b, text):
        return (raw[:a] + text.encode() + raw[b:]).decode()
    main = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.If) and "__main__" in ast.dump(n.test):
            main |= {id(x) for x in ast.walk(n)}
        if isinstance(n, (ast.FunctionDef,)):
            for d in n.decorator_list:
                main |= {id(x) for x in ast.walk(d)}
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("print", "warn"):
            main |= {id(x) for x in ast.walk(n)}
        if isinstance(n, ast.Raise):
            main |= {id(x) for x in ast.walk(n)}
    for n in ast.walk(tree):
        if id(n) in main:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            a, b = span(n.left)[1], span(n.comparators[0])[0]
            for o in CMP[type(n.ops[0])]:
                mid = raw[a:b].decode()
                new = re.sub(r"(is not|is|<=|>=|==|!=|<|>)", o, mid, 1)
                yield n.lineno, f"{mid.strip()} -> {o}", put(a, b, new)
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            a, b = span(n.left)[1], span(n.right)[0]
            mid = raw[a:b].decode()
            new = re.sub(r"(\*\*|//|<<|>>|[-+*/%|&^])", BIN[type(n.op)], mid, 1)
            yield n.lineno, f"{mid.strip()} -> {BIN[type(n.op)]}", put(a, b, new)
        elif isinstance(n, ast.Constant) and type(n.value) in (int, float):
            a, b = span(n)
            yield n.lineno, f"{n.value} -> {n.value}+1", put(a, b, f"({n.value!r}+1)")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            a, b = span(n)
            yield n.lineno, "drop minus", put(a, a + 1, "+")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            a, b = span(n)
            yield n.lineno, "drop not", put(a, a + 3, "   ")
        elif isinstance(n, ast.BoolOp):
            a, b = span(n.values[0])[1], span(n.values[1])[0]
            mid = raw[a:b].decode()
            new = mid.replace("and", "or") if "and" in mid else mid.replace("or", "and")
            yield n.lineno, f"{mid.strip()} -> {new.strip()}", put(a, b, new)
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            a, b = span(n)
            if n.lineno == n.end_lineno or isinstance(n, (ast.AugAssign, ast.Expr)) or isinstance(n.targets[0], (ast.Subscript, ast.Attribute)):
                if isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Name, ast.Tuple)):
                    continue
                yield n.lineno, "drop " + raw[a:b].decode().split("\n")[0][:50], put(a, b, "pass")
        elif isinstance(n, (ast.Continue, ast.Break)):
            a, b = span(n)
            yield n.lineno, "drop " + raw[a:b].decode(), put(a, b, "pass")
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "conj") and not n.args:
            a, b = span(n)
            c, d = span(n.func.value)
            yield n.lineno, "drop ." + n.func.attr + "()", put(a, b, raw[c:d].decode())
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            a, b = span(n.slice)
            yield n.lineno, f"[{raw[a:b].decode()}] -> [:]", put(a, b, ":")


def c_mutants(src):
    body = re.sub(r"/\*.*?\*/|//[^\n]*", lambda m: " " * len(m.group()), src, flags=re.S)
    ops = [(r"(?<![<=>!+\-*/&|])<(?![<=])", "<="), (r"(?<![-<=>])>(?![>=])", ">="), (r"<=", "<"), (r">=", ">"), (r"==", "!="), (r"!=", "=="), (r"\+=", "-="),
           (r"-=", "+="), (r"(?<=[\w)\]] )\+(?= ?[\w(])", "-"), (r"(?<=[\w)\]])\*(?=[\w(])", "/"), (r"\b0\b(?!\.)", "1"), (r"\b1\b(?!\.)", "2"), (r"\b2\.0?\b", "3.0")]
    for pat, new in ops:
        for m in re.finditer(pat, body):
            line = body.count("\n", 0, m.start()) + 1
            text = src.splitlines()[line - 1]
            if text.lstrip().startswith(("#", "cimport", "import", "from", "@")) or "printf" in text:
                continue
            yield line, f"{m.group()} -> {new}: {text.strip()[:60]}", src[:m.start()] + new + src[m.end():]


def main():
    p = argparse.ArgumentParser()
    p.add_argument("--scratch", required=True)
    p.add_argument("--only")
    p.add_argument("--every", type=int, default=1)
    p.add_argument("--offset", type=int, default=0)
    p.add_argument("--cap", type=int, default=25)
    a = p.parse_args()
    root = os.path.join(a.scratch, "repo")
    shutil.rmtree(root, ignore_errors=True)
    shutil.copytree("/repo", root, symlinks=True, ignore=shutil.ignore_patterns(".git"))
    count = dict(killed=0, survived=0, other=0)
    for f, checks in MAP.items():
        if a.only and f not in a.only.split(","):
            continue
        path = os.path.join(root, f)
        src = open(path).read()
        muts = sorted((py_mutants if f.endswith(".py") else c_mutants)(src), key=lambda m: m[:2])
        for k, (line, what, new) in enumerate(muts):
            if k % a.every != a.offset:
                continue
            if f.endswith(".py"):
                try:
                    compile(new, f, "exec")
                except SyntaxError:
                    continue
            with open(path, "w") as g:
                g.write(new)
            t0 = time.time()
            verdict = "SURVIVED"
            for c in checks.split():
                try:
                    r = subprocess.run(["/opt/venv/bin/python", "-m", "sim.harness", "check", c, "--cap", str(a.cap)], cwd=V, text=True,
                                       capture_output=True, timeout=400, env=dict(os.environ, VERIF_REPO=root, PYTHONPATH=V, VERIF_SEED="1"))
                except subprocess.TimeoutExpired:
                    verdict = f"other {c} timeout"
                    break
                if r.returncode == 1 and "VIOLATION" in r.stdout:
                    kind = re.findall(r"\[%s\] ([\w-]+):" % c, r.stdout)
                    verdict = f"killed {c} {kind[:1]}"
                    break
                if r.returncode and 'runs finished' not in r.stdout:
                    verdict = f"other {c} rc={r.returncode} {r.stdout[-150:]!r}"
                    break
            count[verdict.split()[0].lower() if verdict[0] != "S" else "survived"] += 1
            print(f"{f}:{line} [{what}] {verdict} {time.time() - t0:.0f}s", flush=True)
        with open(path, "w") as g:
            g.write(src)
    print(count)
    shutil.rmtree(root, ignore_errors=True)


if __name__ == "__main__":
    main()
