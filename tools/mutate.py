#!/opt/venv/bin/python
"""Automatic mutants of graphix against the quick checks (development aid, not used by any check).

mutate.py list FILE                        number of mutation sites
mutate.py run FILE PROP[,PROP..] N SEED    draw N mutants of /repo/graphix/FILE, run the checks on each in a private mount namespace

Nothing in /repo is changed: the mutated file is bind-mounted over the original for the duration of one check.
Prints one line per mutant: killed-by / SURVIVED with the changed line.
"""

import ast
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time


def sites(src):
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for ln in lines:
        off.append(off[-1] + len(ln.encode()))
    data = src.encode()
    out = []

    def span(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = span(n)
        return data[a:b].decode()

    def add(n, new, kind):
        a, b = span(n)
        if data[a:b].decode() != new:
            out.append((a, b, new, kind, n.lineno))

    cmpswap = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
    binswap = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/"], ast.Div: ["*"], ast.BitOr: ["^", "&"], ast.BitXor: ["|"], ast.BitAnd: ["|"], ast.FloorDiv: ["%"], ast.Mod: ["//"], ast.MatMult: ["swap"], ast.LShift: [">>"], ast.Pow: ["*"]}

    skip_calls = {"warn", "TypeVar", "override", "print", "Error", "debug"}

    def visit(n, infunc):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            if n.name in ("__repr__", "__str__", "draw", "to_ascii", "to_latex", "to_unicode") or n.name.startswith("_repr"):
                return
            for s in n.body:
                visit(s, True)
            return
        if isinstance(n, ast.ClassDef):
            for s in n.body:
                visit(s, infunc)
            return
        if isinstance(n, ast.If) and "TYPE_CHECKING" in text(n.test):
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, (ast.Raise, ast.Assert, ast.Import, ast.ImportFrom)):
            return
        if not infunc:
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                    visit(c, infunc)
            return
        if isinstance(n, ast.AnnAssign):
            if n.value is not None:
                visit(n.value, infunc)
            return
        if isinstance(n, ast.Call):
            f = text(n.func)
            if any(f.endswith(s) or s + "(" in f for s in skip_calls):
                return
            if f in ("list", "set", "dict", "frozenset", "tuple", "sorted", "reversed", "abs", "copy", "copy.copy", "deepcopy", "copy.deepcopy", "bool") and len(n.args) == 1:
                add(n, text(n.args[0]), "unwrap")
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "conj", "conjugate", "transpose") and not n.args:
                add(n, text(n.func.value), "uncall")
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                a0, a1 = n.args[0], n.args[1]
                if text(a0) != text(a1):
                    s, _ = span(a0)
                    _, e = span(a1)
                    mid = data[span(a0)[1]:span(a1)[0]].decode()
                    out.append((s, e, text(a1) + mid + text(a0), "argswap", n.lineno))
            if f == "any":
                add(n.func, "all", "anyall")
            if f == "all":
                add(n.func, "any", "anyall")
            if f == "min":
                add(n.func, "max", "minmax")
            if f == "max":
                add(n.func, "min", "minmax")
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            new = cmpswap.get(type(n.ops[0]))
            if new:
                a = span(n.left)[1]
                b = span(n.comparators[0])[0]
                out.append((a, b, f" {new} ", "cmp", n.lineno))
        if isinstance(n, ast.BinOp):
            for new in binswap.get(type(n.op), []):
                if new == "swap":
                    add(n, f"{text(n.right)} @ {text(n.left)}", "matmul-swap")
                    continue
                a = span(n.left)[1]
                b = span(n.right)[0]
                gap = data[a:b].decode()
                if "(" in gap or ")" in gap:
                    continue
                out.append((a, b, f" {new} ", "bin", n.lineno))
        if isinstance(n, ast.AugAssign):
            sym = {ast.Add: "-=", ast.Sub: "+=", ast.BitXor: "|=", ast.BitOr: "^=", ast.Mult: "/=", ast.BitAnd: "|="}.get(type(n.op))
            if sym:
                a, b = span(n.target)[1], span(n.value)[0]
                if "(" not in data[a:b].decode():
                    out.append((a, b, f" {sym} ", "aug", n.lineno))
            add(n, "pass", "del-stmt")
        if isinstance(n, ast.BoolOp):
            a, b = span(n.values[0])[1], span(n.values[1])[0]
            gap = data[a:b].decode()
            if "(" not in gap and ")" not in gap:
                out.append((a, b, " or " if isinstance(n.op, ast.And) else " and ", "bool", n.lineno))
        if isinstance(n, ast.UnaryOp):
            if isinstance(n.op, (ast.Not, ast.USub)):
                add(n, f"({text(n.operand)})", "unary")
        if isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                add(n, str(not n.value), "const")
            elif isinstance(n.value, int):
                add(n, str(n.value + 1), "const")
                if n.value:
                    add(n, str(n.value - 1), "const")
            elif isinstance(n.value, float):
                add(n, repr(n.value * 2 + 0.5), "const")
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            f = text(n.value.func)
            if not any(f.endswith(s) for s in skip_calls):
                add(n, "pass", "del-stmt")
        if isinstance(n, (ast.If, ast.IfExp, ast.While)):
            if not isinstance(n, ast.While):
                add(n.test, "True", "if")
                add(n.test, "False", "if")
        if isinstance(n, ast.Continue):
            add(n, "break", "loop")
        if isinstance(n, ast.Break):
            add(n, "continue", "loop")
        if isinstance(n, ast.Attribute) and n.attr in ("X", "Y", "Z", "XY", "YZ", "XZ", "S", "H") and isinstance(n.value, ast.Name) and isinstance(n.ctx, ast.Load):
            alt = {"X": "Z", "Z": "X", "Y": "Z", "XY": "XZ", "YZ": "XZ", "XZ": "YZ", "S": "Z", "H": "S"}[n.attr]
            add(n, f"{n.value.id}.{alt}", "sym")
        if isinstance(n, ast.Attribute) and n.attr in ("s_domain", "t_domain") and isinstance(n.ctx, ast.Load):
            a, b = span(n)
            out.append((a, b, text(n.value) + "." + ("t_domain" if n.attr == "s_domain" else "s_domain"), "st", n.lineno))
        for field, v in ast.iter_fields(n):
            if field in ("annotation", "returns", "keywords") and field != "keywords":
                continue
            for c in v if isinstance(v, list) else [v]:
                if isinstance(c, ast.keyword):
                    if c.arg == "stacklevel":
                        continue
                    visit(c.value, infunc)
                elif isinstance(c, ast.AST):
                    visit(c, infunc)

    for s in tree.body:
        visit(s, False)
    return [s for s in out if "stacklevel" not in lines[s[4] - 1]], data


def run_one(path, props, mut, data, workers, tests=False):
    a, b, new, kind, ln = mut
    body = data[:a] + new.encode() + data[b:]
    try:
        ast.parse(body.decode())
    except SyntaxError:
        return None
    w = tempfile.mkdtemp(prefix="/tmp/mm.")
    try:
        m = os.path.join(w, "m.py")
        open(m, "wb").write(body)
        os.mkdir(os.path.join(w, "ev"))
        res = None
        for prop in props:
            t = time.time()
            cmd = f"mount --bind {m} {path} && mount --bind {w}/ev /verif/evidence && cd /verif && VERIF_SEED=1 DST_SHRINK_S=0.1 exec timeout 600 ./check.py {prop} --tier quick --workers {workers}"
            r = subprocess.run(["unshare", "-Urm", "bash", "-c", cmd], capture_output=True, text=True)
            dt = time.time() - t
            if r.returncode == 1:
                cls = [x for x in r.stdout.splitlines() if x.startswith("  scenario=")]
                return f"killed {prop} {dt:.0f}s {cls[0].strip() if cls else ''}"
            if r.returncode != 0:
                return f"BROKEN {prop} rc={r.returncode} {r.stderr.strip().splitlines()[-1][:150] if r.stderr.strip() else ''}"
            res = f"SURVIVED {','.join(props)} {dt:.0f}s"
        return res
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main():
    f = sys.argv[2]
    path = f"/repo/graphix/{f}"
    src = open(path).read()
    ss, data = sites(src)
    if sys.argv[1] == "list":
        print(f, len(ss))
        return
    props = sys.argv[3].split(",")
    n, seed = int(sys.argv[4]), int(sys.argv[5])
    workers = os.environ.get("W", "3")
    random.Random(seed).shuffle(ss)
    for mut in ss[:n]:
        res = run_one(path, props, mut, data, workers)
        a, b, new, kind, ln = mut
        line = src.splitlines()[ln - 1].strip()
        print(f"{f}:{ln} [{kind}] {data[a:b].decode()[:60]!r} -> {new[:60]!r} :: {res} :: {line[:120]}", flush=True)


main()
