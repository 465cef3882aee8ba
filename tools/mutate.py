#!/opt/veriftools/pyvenv/bin/python
"""Mutation testing of the checks (development aid; no check reads it).

mutate.py FILE[:QUALNAME,...] CHECK[,CHECK...] [-n MAX] [-j WORKERS] [--seed S]
Plants syntactic mutants of /repo/pyoptmat/FILE in scratch copies under /tmp/mt, runs the checks against each and lists
the mutants no check reports."""
import argparse
import ast
import copy
import os
import random
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.Pow: [ast.Mult]}
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.GtE], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.LtE],
       ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
NAMES = {"sum": ["mean", "prod"], "max": ["min"], "min": ["max"], "zeros": ["ones"], "zeros_like": ["ones_like"],
         "all": ["any"], "any": ["all"], "sin": ["cos"], "exp": ["log"], "sign": ["abs"], "abs": ["neg"],
         "logical_and": ["logical_or"], "logical_or": ["logical_and"], "ones": ["zeros"], "ones_like": ["zeros_like"]}


DEEP = 0


def mutants(tree, quals):
    """Yields (description, mutated tree)."""
    funcs = []

    def walk(node, prefix):
        for c in ast.iter_child_nodes(node):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                q = prefix + c.name
                if isinstance(c, ast.FunctionDef) and (not quals or any(q == x or q.startswith(x + ".") or q.endswith("." + x) for x in quals)):
                    funcs.append(q)
                walk(c, q + ".")
    walk(tree, "")

    def find(t, q):
        n = t
        for part in q.split("."):
            n = next(c for c in ast.iter_child_nodes(n) if getattr(c, "name", None) == part)
        return n
    for q in funcs:
        base = list(ast.walk(find(tree, q)))
        local = sorted({n.id for n in base if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} |
                       {n.arg for n in base if isinstance(n, ast.arg) and n.arg != "self"})
        attrs = sorted({n.attr for n in base if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self"
                        and isinstance(n.ctx, ast.Load)})
        for i, n in enumerate(base):
            def make(f, what):
                t = copy.deepcopy(tree)
                m = list(ast.walk(find(t, q)))[i]
                f(m)
                try:
                    src = ast.unparse(ast.fix_missing_locations(t))
                except Exception:
                    return None
                return (f"{q}:{getattr(n, 'lineno', '?')} {what}", src)
            if DEEP and isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in local and n.id not in ("torch", "np"):
                for o in local:
                    if o != n.id:
                        yield make(lambda m, o=o: setattr(m, "id", o), f"name {n.id}->{o}")
                if DEEP > 1:
                    for how in ("[:1]", "[-1:]"):
                        def cut(m, how=how):
                            new = ast.parse(f"{m.id}{how}", mode="eval").body
                            m.__class__ = ast.Subscript
                            m.value, m.slice, m.ctx = new.value, new.slice, ast.Load()
                            m._fields = ast.Subscript._fields
                        yield make(cut, f"{n.id}{how}")
            if DEEP and isinstance(n, ast.Attribute) and n.attr in attrs and isinstance(n.value, ast.Name) and n.value.id == "self" \
                    and isinstance(n.ctx, ast.Load):
                for o in attrs:
                    if o != n.attr:
                        yield make(lambda m, o=o: setattr(m, "attr", o), f"self.{n.attr}->{o}")
            if DEEP and isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
                def rma(m):
                    m.__class__ = ast.Pass
                    m._fields = ()
                yield make(rma, f"{ast.unparse(n)[:70]}  deleted")
            if DEEP and isinstance(n, ast.For):
                for w in ("list({})[:-1]", "list({})[1:]", "reversed(list({}))"):
                    def lp(m, w=w):
                        m.iter = ast.parse(w.format(ast.unparse(m.iter)), mode="eval").body
                    yield make(lp, f"for over {w.format(ast.unparse(n.iter))}")
            if isinstance(n, ast.BinOp):
                for o in BIN.get(type(n.op), []):
                    yield make(lambda m, o=o: setattr(m, "op", o()), f"{ast.unparse(n)[:70]}  op->{o.__name__}")
                if isinstance(n.op, (ast.Sub, ast.Div)):
                    def sw(m):
                        m.left, m.right = m.right, m.left
                    yield make(sw, f"{ast.unparse(n)[:70]}  swapped")
            elif isinstance(n, ast.Compare):
                for o in CMP.get(type(n.ops[0]), []):
                    yield make(lambda m, o=o: m.ops.__setitem__(0, o()), f"{ast.unparse(n)[:70]}  cmp->{o.__name__}")
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
                yield make(lambda m: setattr(m, "op", ast.UAdd()), f"{ast.unparse(n)[:70]}  drop -")
            elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
                yield make(lambda m: setattr(m, "value", not m.value), f"const {n.value} flipped")
            elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
                yield make(lambda m: setattr(m, "value", m.value + 1), f"const {n.value}+1")
                yield make(lambda m: setattr(m, "value", m.value - 1), f"const {n.value}-1")
            elif isinstance(n, ast.Attribute) and n.attr in NAMES:
                for o in NAMES[n.attr]:
                    yield make(lambda m, o=o: setattr(m, "attr", o), f"{ast.unparse(n)[:70]} attr->{o}")
            elif isinstance(n, ast.BoolOp):
                yield make(lambda m: setattr(m, "op", ast.Or() if isinstance(m.op, ast.And) else ast.And()), f"{ast.unparse(n)[:70]} and/or")
            elif isinstance(n, ast.If):
                yield make(lambda m: setattr(m, "test", ast.UnaryOp(ast.Not(), m.test)), f"if {ast.unparse(n.test)[:60]} negated")
            elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
                if isinstance(n, (ast.AugAssign, ast.Expr)) or not isinstance(n.targets[0], ast.Name):
                    def rm(m):
                        m.__class__ = ast.Pass
                        m._fields = ()
                    yield make(rm, f"{ast.unparse(n)[:70]}  deleted")
            elif isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                def swp(m):
                    m.args[0], m.args[1] = m.args[1], m.args[0]
                yield make(swp, f"{ast.unparse(n)[:70]}  args swapped")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("file")
    ap.add_argument("checks")
    ap.add_argument("-n", type=int, default=40)
    ap.add_argument("-j", type=int, default=4)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--timeout", type=int, default=400)
    ap.add_argument("--deep", type=int, default=0)
    a = ap.parse_args()
    global DEEP
    DEEP = a.deep
    f, _, q = a.file.partition(":")
    repo = os.environ.get("MT_REPO", "/repo")
    src = open(f"{repo}/pyoptmat/{f}").read()
    tree = ast.parse(src)
    ms = [m for m in mutants(tree, [x for x in q.split(",") if x]) if m]
    seen, uniq = {ast.unparse(tree)}, []
    for m in ms:
        if m[1] not in seen:
            seen.add(m[1])
            uniq.append(m)
    random.Random(a.seed).shuffle(uniq)
    print(f"{len(uniq)} mutants, running {min(a.n, len(uniq))}", flush=True)
    free = Queue()
    tag = f"{f}_{os.getpid()}"
    for i in range(a.j):
        d = f"/tmp/mt/{tag}/w{i}"
        os.makedirs(d)
        shutil.copytree(f"{repo}/pyoptmat", f"{d}/pyoptmat")
        free.put(d)
    killed = [0]

    def job(m):
        d = free.get()
        try:
            open(f"{d}/pyoptmat/{f}", "w").write(m[1])
            out = []
            for c in a.checks.split(","):
                try:
                    r = subprocess.run(["/verif/run", c, "quick", "-j", str(max(1, 8 // a.j))], capture_output=True, text=True,
                                       timeout=a.timeout, env={**os.environ, "PVC_REPO": d, "PVC_OUT": d + "/out"})
                except subprocess.TimeoutExpired:
                    out.append(f"{c}:timeout")
                    continue
                v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
                if r.returncode == 1 and v:
                    soft = all(l.endswith("no-failing-input-found") for l in v)
                    killed[0] += 1
                    if soft:
                        print(f"soft-killed by {c}: {m[0]}", flush=True)
                    return
                last = r.stdout.strip().splitlines()[-1:] or [r.stderr[-200:]]
                out.append(f"{c}:{r.returncode} {last[0][-110:]}")
            print(f"SURVIVED {m[0]}   [{'; '.join(out)}]", flush=True)
        finally:
            free.put(d)
    with ThreadPoolExecutor(a.j) as ex:
        list(ex.map(job, uniq[:a.n]))
    print(f"killed {killed[0]} of {min(a.n, len(uniq))}")
    shutil.rmtree(f"/tmp/mt/{tag}")


main()
