"""Systematic mutation of the code under test (a development tool; no check uses it).

    python3 tools/mutate.py gen OUT.json [--seed N] [--count N] [--files a.py,b.py]
    python3 tools/mutate.py run MUTANTS.json LOG [--jobs N] [--budget S] [--full]

`gen` samples syntactic mutants of /repo/nannos. `run` makes each one in a scratch
copy of the package and runs the cases of the checks mapped to that file until one
reports a violation; survivors are listed for a closer look.
"""
import argparse
import ast
import json
import os
import random
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PLANT_REPO", "/repo")
MAP = {
    "simulation.py": "P01 P03 P04 P05 P29 P10 P11 P12 P20 P24 P25 P02 P22 P23 P13 P17",
    "layers.py": "P01 P03 P11 P12 P21 P22 P28 P04 P09 P13 P26 P23",
    "lattice.py": "P09 P07 P08 P22 P06 P26 P13 P14",
    "geometry.py": "P08 P26",
    "excitation.py": "P29 P01 P06 P22 P13 P17",
    "optimize.py": "P18 P19 P17 P13",
    "sample.py": "P16",
    "parallel.py": "P15",
    "log.py": "P27",
    "plot.py": "P28",
    "__init__.py": "P14 P27 P13 P22 P17",
    "constants.py": "P01 P02",
    "formulations/fft.py": "P25 P13 P21 P19",
    "formulations/jones.py": "P21 P03 P13",
    "formulations/tangent.py": "P21 P13 P03 P11",
    "utils/helpers.py": "P19 P03 P13 P22 P09 P17 P18",
    "utils/time.py": "P27 P15",
}


def seg(src_lines, node):
    return node.lineno, node.col_offset, node.end_lineno, node.end_col_offset


class Gen(ast.NodeVisitor):
    def __init__(self, src):
        self.src = src
        self.lines = src.split("\n")
        self.off = [0]
        for l in src.encode().split(b"\n"):
            self.off.append(self.off[-1] + len(l) + 1)
        self.bsrc = src.encode()
        self.out = []
        self.func = []

    def pos(self, n):
        return (
            self.off[n.lineno - 1] + n.col_offset,
            self.off[n.end_lineno - 1] + n.end_col_offset,
        )

    def text(self, n):
        a, b = self.pos(n)
        return self.bsrc[a:b].decode()

    def add(self, n, new, kind):
        a, b = self.pos(n)
        if self.bsrc[a:b].decode() != new:
            self.out.append((a, b, new, kind, n.lineno, ".".join(self.func)))

    def visit_FunctionDef(self, n):
        self.func.append(n.name)
        body = n.body
        if isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
            body = body[1:]
        for d in n.decorator_list:
            pass
        for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
            self.visit(d)
        for s in body:
            self.stmt(s)
        self.func.pop()

    def visit_ClassDef(self, n):
        self.func.append(n.name)
        for s in n.body:
            if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                self.stmt(s)
        self.func.pop()

    def visit_Module(self, n):
        for s in n.body:
            if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                self.stmt(s)

    def stmt(self, s):
        self.visit(s)

    def generic_visit(self, n):
        for f in ("body", "orelse", "finalbody"):
            for s in getattr(n, f, []) if isinstance(getattr(n, f, None), list) else []:
                pass
        if isinstance(n, (ast.AugAssign,)) or (
            isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)
        ):
            if not self.text(n).startswith(("log", "print")):
                self.add(n, "pass", "drop-stmt")
        if isinstance(n, ast.Assign) and isinstance(
            n.targets[0], (ast.Attribute, ast.Subscript)
        ):
            self.add(n, "pass", "drop-assign")
        super().generic_visit(n)

    def visit_Import(self, n):
        pass

    visit_ImportFrom = visit_Import
    visit_JoinedStr = visit_Import
    visit_Raise = visit_Import

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            t = {
                ast.Lt: ["<=", ">"],
                ast.LtE: ["<", ">"],
                ast.Gt: [">=", "<"],
                ast.GtE: [">", "<"],
                ast.Eq: ["!="],
                ast.NotEq: ["=="],
                ast.Is: ["is not"],
                ast.IsNot: ["is"],
                ast.In: ["not in"],
                ast.NotIn: ["in"],
            }[type(n.ops[0])]
            for o in t:
                self.add(n, f"({self.text(n.left)} {o} {self.text(n.comparators[0])})", "cmp")
        self.generic_visit(n)

    def visit_BinOp(self, n):
        t = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/", ast.Mod: "*"}.get(type(n.op))
        l, r = self.text(n.left), self.text(n.right)
        if t and not isinstance(n.left, (ast.JoinedStr,)) and "'" not in l + r and '"' not in l + r:
            self.add(n, f"(({l}) {t} ({r}))", "arith")
        if isinstance(n.op, (ast.Mult, ast.Pow, ast.Add, ast.Sub)):
            self.add(n, f"({l})", "drop-right")
        if isinstance(n.op, ast.MatMult):
            self.add(n, f"(({r}) @ ({l}))", "swap-matmul")
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, (ast.USub, ast.Not, ast.Invert)):
            self.add(n, f"({self.text(n.operand)})", "drop-unary")
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        o = " or " if isinstance(n.op, ast.And) else " and "
        self.add(n, "(" + o.join(f"({self.text(v)})" for v in n.values) + ")", "bool")
        for v in n.values:
            self.add(n, f"({self.text(v)})", "bool-one")
        self.generic_visit(n)

    def visit_Constant(self, n):
        v = n.value
        if v is True or v is False:
            self.add(n, str(not v), "const")
        elif isinstance(v, (int, float)):
            for w in {0: [1], 1: [0, 2], 2: [1, 3], -1: [0]}.get(v, [v * 1.5 if isinstance(v, float) else v + 1]):
                self.add(n, repr(w), "const")
        elif isinstance(v, complex):
            self.add(n, f"(-{self.text(n)})", "const")
        elif v is None:
            pass

    def visit_If(self, n):
        for w in ("True", "False"):
            self.add(n.test, w, "cond")
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.add(n, f"({self.text(n.body)})", "ifexp")
        self.add(n, f"({self.text(n.orelse)})", "ifexp")
        self.generic_visit(n)

    def visit_Attribute(self, n):
        if n.attr in ("T", "real", "imag"):
            self.add(n, f"({self.text(n.value)})", "drop-attr")
        self.generic_visit(n)

    def visit_Call(self, n):
        f = self.text(n.func)
        if f.startswith(("log", "print")) or f.endswith(("Error", "super", "warn")):
            return
        name = f.split(".")[-1]
        if len(n.args) == 1 and not n.keywords and name in (
            "conj", "real", "abs", "copy", "array", "transpose", "sqrt", "imag", "ravel",
            "flatten", "deepcopy", "sorted", "list", "tuple", "int", "float", "round", "reversed", "set", "str", "bool"):
            self.add(n, f"({self.text(n.args[0])})", "drop-call")
        if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args) and name not in ("isinstance", "hasattr"):
            a = [self.text(x) for x in n.args]
            for i in range(len(a) - 1):
                b = list(a)
                b[i], b[i + 1] = b[i + 1], b[i]
                kw = [(k.arg + "=" if k.arg else "**") + self.text(k.value) for k in n.keywords]
                self.add(n, f"{f}({', '.join(b + kw)})", "swap-args")
        for k in n.keywords:
            kw = [(q.arg + "=" if q.arg else "**") + self.text(q.value) for q in n.keywords if q is not k]
            self.add(n, f"{f}({', '.join([self.text(x) for x in n.args] + kw)})", "drop-kw")
        if len(n.args) == 0 and not n.keywords and name in ("conj", "copy"):
            self.add(n, f"({self.text(n.func.value)})", "drop-call")
        self.generic_visit(n)

    def visit_Subscript(self, n):
        self.generic_visit(n)


def generate(files):
    ms = []
    for f in files:
        p = os.path.join(REPO, "nannos", f)
        src = open(p).read()
        g = Gen(src)
        g.visit(ast.parse(src))
        seen = set()
        for a, b, new, kind, line, func in g.out:
            t = g.bsrc[:a] + new.encode() + g.bsrc[b:]
            if t in seen:
                continue
            seen.add(t)
            try:
                ast.parse(t)
            except SyntaxError:
                continue
            if ast.dump(ast.parse(t)) == ast.dump(ast.parse(src)):
                continue
            ms.append(dict(file=f, a=a, b=b, new=new, old=g.bsrc[a:b].decode(), kind=kind, line=line, func=func))
    return ms


def make(m, dst):
    os.makedirs(dst, exist_ok=True)
    shutil.copytree(os.path.join(REPO, "nannos"), os.path.join(dst, "nannos"), ignore=shutil.ignore_patterns("__pycache__"))
    p = os.path.join(dst, "nannos", m["file"])
    s = open(p, "rb").read()
    assert s[m["a"] : m["b"]].decode() == m["old"]
    open(p, "wb").write(s[: m["a"]] + m["new"].encode() + s[m["b"] :])


def one(i, m, budget, full):
    dst = f"/tmp/exp/mut/w/{os.getpid()}-{i}"
    make(m, dst)
    props = MAP[m["file"]].split()
    if full:
        props += [p for p in (f"P{k:02d}" for k in range(1, 30)) if p not in props]
    env = dict(os.environ, VERIF_REPO=dst, PYTHONPATH=f"{dst}:{HERE}", VERIF_EVIDENCE=dst + "/ev", TMPDIR=dst)
    for k in "OMP OPENBLAS MKL NUMEXPR".split():
        env[k + "_NUM_THREADS"] = "1"
    env.update(PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="agg", PYVISTA_OFF_SCREEN="true", JAX_PLATFORMS="cpu", PYTHONHASHSEED="0", PYTHONWARNINGS="ignore", XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1", MPLCONFIGDIR="/tmp/verif-mpl")
    for k in ("NANNOS_BACKEND", "NANNOS_GPU"):
        env.pop(k, None)
    try:
        r = subprocess.run(["/opt/venv/bin/python", os.path.join(HERE, "tools/mutrun.py"), str(budget)] + props, env=env, cwd=HERE, capture_output=True, text=True, timeout=60 + budget * len(props) * 2)
        out = (r.stdout.strip().split("\n") or [""])[-1]
        if not out.startswith(("KILLED", "SURVIVED", "IMPORT")):
            out = "CRASH " + (r.stderr.strip().split("\n") or [""])[-1][:200]
    except subprocess.TimeoutExpired:
        out = "TIMEOUT"
    shutil.rmtree(dst, ignore_errors=True)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd")
    ap.add_argument("path")
    ap.add_argument("log", nargs="?")
    ap.add_argument("--seed", type=int, default=0)
    ap.add_argument("--count", type=int, default=300)
    ap.add_argument("--files")
    ap.add_argument("--jobs", type=int, default=6)
    ap.add_argument("--budget", type=float, default=20)
    ap.add_argument("--full", action="store_true")
    a = ap.parse_args()
    if a.cmd == "gen":
        ms = generate(a.files.split(",") if a.files else sorted(MAP))
        random.Random(a.seed).shuffle(ms)
        print(len(ms), "mutants;", {f: sum(m["file"] == f for m in ms) for f in MAP})
        json.dump(ms[: a.count], open(a.path, "w"), indent=0)
        return
    ms = json.load(open(a.path))
    log = open(a.log, "a", buffering=1)

    def go(t):
        i, m = t
        try:
            r = one(i, m, a.budget, a.full)
        except Exception as e:
            r = f"HARNESS {e!r}"
        log.write(f"{r.split(' ')[0]} | {i} | {m['file']}:{m['line']} {m['func']} [{m['kind']}] {m['old']!r} -> {m['new']!r} | {r}\n")

    with ThreadPoolExecutor(a.jobs) as ex:
        list(ex.map(go, enumerate(ms)))


main()
