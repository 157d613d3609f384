"""Mechanical mutation of /repo/src/torchrir on scratch copies: which changed lines does no check notice?

usage: mutate.py OUT.jsonl [-n per-100-lines] [-s seed] [file-prefix ...]
Keeps the mutants that pass the repository's tests, runs the checks of the file's properties (quick tier, stopping
at the first alarm) and writes one record per mutant.  Survivors are read by hand: equivalent, outside every
property, or a gap.  This measures the checks; it is not one of them.
"""
import ast
import concurrent.futures as cf
import difflib
import json
import os
import queue
import random
import shutil
import subprocess
import sys
import tempfile
import time
from pathlib import Path

from plant import tests

VERIF = Path(__file__).resolve().parent.parent
SRC = Path("/repo/src/torchrir")
LANES = int(os.environ.get("LANES", "4"))
MAP = [
    ("sim/ism/accumulate", "P03 P01 P04 P02 P05"), ("sim/ism/hpf", "P07"), ("sim/ism/diffuse", "P08"),
    ("sim/ism/validate", "P09 P13"), ("sim/ism/prepare", "P09 P01 P02 P13 P04"), ("sim/ism/contributions", "P01 P06 P02 P03 P04"),
    ("sim/ism/images", "P01 P09"), ("sim/ism/helpers", "P06 P01 P04"), ("sim/ism", "P01 P03 P09 P07 P02 P08 P04"),
    ("sim/directivity", "P06"), ("sim", "P09 P13 P01 P02"), ("signal/static", "P10 P11 P22"), ("signal/internal", "P10 P11 P12"),
    ("signal/dynamic", "P11 P12 P04"), ("models", "P13 P09 P26"), ("config", "P09 P07 P04 P13"),
    ("util/acoustics", "P14"), ("util/orientation", "P06 P29"), ("util/device", "P29"), ("util/tensor", "P29 P14"),
    ("util/cli", "P33"), ("util", "P29"), ("logging", "P30"), ("geometry/arrays", "P15"), ("geometry", "P16"),
    ("datasets/_archive", "P18 P17"), ("datasets/base", "P05 P19"), ("datasets/cmu", "P17 P19 P31"),
    ("datasets/libri", "P17 P19 P31"), ("datasets/utils", "P20"), ("datasets/collate", "P21"), ("datasets/attr", "P31"),
    ("datasets/dynamic", "P24 P22 P23"), ("datasets", "P19 P20"), ("io/metadata", "P26"), ("io/outputs", "P25 P26 P31"),
    ("io", "P25"), ("viz/animation", "P28 P27"), ("viz/io", "P27 P28"), ("viz", "P27"), ("experimental", "P33"),
]
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not",
       ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/", ast.Mod: "*", ast.Pow: "*"}
SYM = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**"}


class Find(ast.NodeVisitor):
    def __init__(self, text):
        self.text, self.out = text, []
        self.off = [0]
        for line in text.encode().split(b"\n"):
            self.off.append(self.off[-1] + len(line) + 1)

    def span(self, n):
        return self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset

    def src(self, n):
        a, b = self.span(n)
        return self.text.encode()[a:b].decode()

    def sub(self, n, new, what):
        a, b = self.span(n)
        self.out.append((a, b, new, n.lineno, what))

    def generic_visit(self, n):
        super().generic_visit(n)

    def visit_Raise(self, n):
        self.sub(n, "pass", "raise dropped")

    def visit_Assert(self, n):
        self.sub(n, "pass", "assert dropped")

    def visit_AnnAssign(self, n):
        if n.value is not None:
            self.visit(n.value)

    def visit_arg(self, n):
        pass

    def visit_FunctionDef(self, n):
        for d in n.args.defaults + [k for k in n.args.kw_defaults if k]:
            self.visit(d)
        for s in n.body:
            self.visit(s)

    def visit_ClassDef(self, n):
        for s in n.body:
            self.visit(s)

    def visit_Import(self, n):
        pass

    visit_ImportFrom = visit_Import

    def visit_If(self, n):
        if "TYPE_CHECKING" in self.src(n.test) or "__name__" in self.src(n.test):
            return
        self.sub(n.test, "True", "if True")
        self.sub(n.test, "False", "if False")
        super().generic_visit(n)

    def visit_IfExp(self, n):
        self.sub(n, f"({self.src(n.body)})", "ifexp body")
        self.sub(n, f"({self.src(n.orelse)})", "ifexp else")
        super().generic_visit(n)

    def visit_Compare(self, n):
        if len(n.ops) == 1 and type(n.ops[0]) in CMP:
            self.sub(n, f"({self.src(n.left)} {CMP[type(n.ops[0])]} {self.src(n.comparators[0])})", "compare")
        super().generic_visit(n)

    def visit_BinOp(self, n):
        if type(n.op) in BIN:
            self.sub(n, f"({self.src(n.left)} {BIN[type(n.op)]} {self.src(n.right)})", "binop")
            self.sub(n, f"({self.src(n.left)})", "binop left")
        super().generic_visit(n)

    def visit_BoolOp(self, n):
        op = " or " if isinstance(n.op, ast.And) else " and "
        self.sub(n, "(" + op.join(f"({self.src(v)})" for v in n.values) + ")", "boolop")
        for k in range(len(n.values)):
            o = " and " if isinstance(n.op, ast.And) else " or "
            self.sub(n, "(" + o.join(f"({self.src(v)})" for j, v in enumerate(n.values) if j != k) + ")", f"boolop drop {k}")
        super().generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, (ast.Not, ast.USub)):
            self.sub(n, f"({self.src(n.operand)})", "unary dropped")
        super().generic_visit(n)

    def visit_Constant(self, n):
        v = n.value
        if isinstance(v, bool):
            self.sub(n, str(not v), "bool")
        elif isinstance(v, int):
            self.sub(n, f"{v + 1}", "int+1")
            if v:
                self.sub(n, f"{v - 1}", "int-1")
        elif isinstance(v, float):
            self.sub(n, repr(v * 1.25 if v else 0.5), "float")
        elif isinstance(v, str) and v and self.keepstr:
            self.sub(n, repr(v + "x"), "str")

    keepstr = True

    def visit_JoinedStr(self, n):
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                self.visit(v.value)

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        s = self.src(n)
        if "logger" in s or "LOG" in s or "warn" in s:
            return
        if not isinstance(n.value, (ast.Yield, ast.YieldFrom)):
            self.sub(n, "pass", "call dropped")
        super().generic_visit(n)

    def visit_AugAssign(self, n):
        self.sub(n, "pass", "augassign dropped")
        super().generic_visit(n)

    def visit_Assign(self, n):
        if any(isinstance(t, ast.Name) and t.id in ("__all__", "logger", "T") for t in n.targets):
            return
        if all(isinstance(t, (ast.Subscript, ast.Attribute)) for t in n.targets):
            self.sub(n, "pass", "store dropped")
        super().generic_visit(n)

    def visit_Call(self, n):
        f = self.src(n.func)
        if f in ("logger.info", "logger.debug", "logger.warning", "warnings.warn"):
            return
        for k in n.keywords:
            if k.arg and len(n.args) + len(n.keywords) > 1:
                rest = [self.src(a) for a in n.args] + [self.src(q) for q in n.keywords if q is not k]
                self.sub(n, f"{f}({', '.join(rest)})", f"kwarg {k.arg} dropped")
        if f in ("min", "max") and len(n.args) == 2:
            self.sub(n, f"{'max' if f == 'min' else 'min'}({', '.join(map(self.src, n.args))})", "min/max")
            self.sub(n, f"({self.src(n.args[0])})", "min/max first")
            self.sub(n, f"({self.src(n.args[1])})", "min/max second")
        if f.split(".")[-1] in ("float", "abs", "contiguous", "clone", "strip", "lower", "sorted", "ceil", "floor", "round", "int", "clamp", "resolve"):
            if n.args:
                self.sub(n, f"({self.src(n.args[0])})", f"{f} dropped")
            elif isinstance(n.func, ast.Attribute):
                self.sub(n, f"({self.src(n.func.value)})", f".{n.func.attr} dropped")
        super().generic_visit(n)

    def visit_Break(self, n):
        self.sub(n, "pass", "break dropped")

    def visit_Continue(self, n):
        self.sub(n, "pass", "continue dropped")


def mutants(rel):
    text = (SRC / rel).read_text()
    v = Find(text)
    v.visit(ast.parse(text))
    raw = text.encode()
    seen = set()
    for a, b, new, line, what in v.out:
        m = (raw[:a] + new.encode() + raw[b:]).decode()
        if m in seen or m == text:
            continue
        seen.add(m)
        try:
            compile(m, rel, "exec")
        except SyntaxError:
            continue
        yield line, what, m


def props(rel):
    for k, v in MAP:
        if rel.startswith(k):
            return v.split()
    return []


def main():
    args = sys.argv[1:]
    out = Path(args.pop(0))
    dens, seed = 8.0, 1
    if "-n" in args:
        i = args.index("-n"); dens = float(args[i + 1]); del args[i:i + 2]
    if "-s" in args:
        i = args.index("-s"); seed = int(args[i + 1]); del args[i:i + 2]
    rng = random.Random(seed)
    jobs = []
    done = {(r["file"], r["diff"]) for r in map(json.loads, out.read_text().splitlines())} if out.exists() else set()
    for p in sorted(SRC.rglob("*.py")):
        rel = str(p.relative_to(SRC))
        if args and not any(rel.startswith(a) for a in args) or not props(rel):
            continue
        ms = list(mutants(rel))
        rng.shuffle(ms)
        orig = p.read_text()
        n = max(2, int(len(orig.splitlines()) * dens / 100))
        for line, what, m in ms[:n]:
            d = "\n".join(l for l in difflib.unified_diff(orig.splitlines(), m.splitlines(), lineterm="", n=0)
                          if l[:1] in "+-" and l[:3] not in ("+++", "---"))
            if (rel, d) not in done:
                jobs.append((rel, line, what, m, d))
    rng.shuffle(jobs)
    print(len(jobs), "mutants", flush=True)
    base = Path(tempfile.mkdtemp(prefix="mut-", dir="/tmp"))
    lanes = queue.Queue()
    for k in range(LANES):
        d = base / str(k)
        shutil.copytree("/repo", d / "repo", symlinks=True, ignore=shutil.ignore_patterns("__pycache__"))
        shutil.copytree(VERIF, d / "verif", ignore=shutil.ignore_patterns("seeded", "evidence", ".git", "__pycache__"))
        lanes.put(d)

    def one(job):
        rel, line, what, m, diff = job
        d = lanes.get()
        f = d / "repo/src/torchrir" / rel
        rec = {"file": rel, "line": line, "what": what, "diff": diff}
        t0 = time.time()
        try:
            f.write_text(m)
            try:
                ok, _ = tests(str(d / "repo"))
            except subprocess.TimeoutExpired:
                ok = False
            if not ok:
                rec["verdict"] = "tests"
                return rec
            env = dict(os.environ, MC_REPO=str(d / "repo"), VERIF_TIER="quick", VERIF_SEED="1", MC_PROCS=str(max(2, 8 // LANES)),
                       MC_FIRST="1")
            for pid in props(rel):
                try:
                    r = subprocess.run(["./run.sh", pid], cwd=d / "verif", env=env, capture_output=True, text=True,
                                       errors="replace", timeout=1200)
                except subprocess.TimeoutExpired:
                    rec["verdict"] = f"timeout {pid}"
                    return rec
                if r.returncode:
                    rec["verdict"] = pid if r.returncode == 1 else f"{pid} rc={r.returncode}"
                    rec["msg"] = next((l.strip()[:160] for l in r.stdout.splitlines() if l.startswith("   ")), "")
                    return rec
            rec["verdict"] = "SURVIVED"
            return rec
        finally:
            rec["s"] = round(time.time() - t0)
            shutil.copy(SRC / rel, f)
            lanes.put(d)

    try:
        with cf.ThreadPoolExecutor(LANES) as ex:
            for fut in cf.as_completed([ex.submit(one, j) for j in jobs]):
                r = fut.result()
                with out.open("a") as fh:
                    fh.write(json.dumps(r) + "\n")
    finally:
        shutil.rmtree(base, ignore_errors=True)


if __name__ == "__main__":
    main()
