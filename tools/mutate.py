"""Mutation campaign (development tool): which changes survive the tests and the checks?

usage: mutate.py OUT.jsonl [file ...]   (files relative to /repo/lattpy)

Every mutant changes one place of one file in a scratch copy. Mutants that pass the tests
of the repository are run against the checks of the file (reduced number of cases first).
"""

import ast
import concurrent.futures
import json
import multiprocessing
import os
import pathlib
import shutil
import sys
import tempfile
import time

os.environ.update(OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg",
                  HYPOTHESIS_STORAGE_DIRECTORY="/tmp/w/hypothesis")
import hypothesis.stateful  # noqa
import matplotlib.pyplot  # noqa
import mpl_toolkits.mplot3d.axes3d  # noqa
import numpy.testing  # noqa
import pytest  # noqa
import scipy.interpolate  # noqa
import scipy.sparse  # noqa
import scipy.spatial  # noqa

VERIF = os.environ.get("VERIF_DIR", "/verif")
FILES = {
    "basis.py": "C01 C02 C03 C04 C05 C20 C15",
    "spatial.py": "C18 C02 C04 C07 C08 C01",
    "utils.py": "C18 C15 C12 C08",
    "atom.py": "C21 C15 C14",
    "shape.py": "C16 C20 C07",
    "structure.py": "C24 C06 C15 C07 C08 C14 C20 C17 C09 C01",
    "lattice.py": "C24 C22 C08 C09 C10 C12 C13 C17 C14 C15 C20 C07 C11",
    "data.py": "C24 C22 C12 C11 C08 C09 C17 C14 C10",
    "disptools.py": "C19 C20",
    "plotting.py": "C20",
    "__init__.py": "C15",
}
SWAP = {
    ast.Lt: ["<="], ast.LtE: ["<"], ast.Gt: [">="], ast.GtE: [">"],
    ast.Eq: ["!="], ast.NotEq: ["=="], ast.In: ["not in"], ast.NotIn: ["in"],
    ast.Is: ["is not"], ast.IsNot: ["is"],
    ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/"], ast.Div: ["*"],
    ast.FloorDiv: ["*"], ast.Mod: ["+"], ast.Pow: ["*"], ast.BitAnd: ["|"],
    ast.BitOr: ["&"], ast.MatMult: ["*"],
}
NAMES = {
    "min": "max", "max": "min", "any": "all", "all": "any", "floor": "ceil",
    "ceil": "floor", "round": "floor", "sin": "cos", "cos": "sin", "sum": "prod",
    "append": "extend", "zeros": "ones", "ones": "zeros", "argmin": "argmax",
    "extend": "append", "sorted": "list", "copy": None, "deepcopy": "copy",
}


class Source:
    def __init__(self, text):
        self.text = text
        self.starts = [0]
        for line in text.splitlines(True):
            self.starts.append(self.starts[-1] + len(line.encode()))
        self.bytes = text.encode()

    def span(self, node):
        a = self.starts[node.lineno - 1] + node.col_offset
        b = self.starts[node.end_lineno - 1] + node.end_col_offset
        return a, b

    def get(self, node):
        a, b = self.span(node)
        return self.bytes[a:b].decode()

    def put(self, a, b, new):
        return (self.bytes[:a] + new.encode() + self.bytes[b:]).decode()


def mutants(text):
    src = Source(text)
    tree = ast.parse(text)
    docs = set()
    skip = set()
    for node in ast.walk(tree):
        body = getattr(node, "body", None)
        if isinstance(body, list) and body and isinstance(body[0], ast.Expr):
            if isinstance(body[0].value, ast.Constant):
                docs.add(id(body[0]))
        if isinstance(node, (ast.FunctionDef, ast.AnnAssign)):
            for sub in [node.annotation] if isinstance(node, ast.AnnAssign) else [
                node.returns, *[a.annotation for a in node.args.args]
            ]:
                if sub is not None:
                    skip.update(id(x) for x in ast.walk(sub))
        if isinstance(node, ast.Expr) and "logger." in src.get(node)[:8]:
            skip.update(id(x) for x in ast.walk(node))
        if isinstance(node, ast.Raise):
            skip.update(id(x) for x in ast.walk(node))
    out = []

    def add(node, a, b, new, kind):
        out.append({"line": node.lineno, "kind": kind,
                    "old": src.bytes[a:b].decode(), "new": new, "a": a, "b": b})

    for node in ast.walk(tree):
        if id(node) in skip or id(node) in docs:
            continue
        if isinstance(node, ast.Compare):
            left = node.left
            for op, right in zip(node.ops, node.comparators):
                a, b = src.span(left)[1], src.span(right)[0]
                mid = src.bytes[a:b].decode()
                for new in SWAP.get(type(op), []):
                    keep = "(" * mid.count("(")
                    back = ")" * mid.count(")")
                    add(node, a, b, f"{back} {new} {keep}", "compare")
                left = right
        elif isinstance(node, ast.BinOp):
            a, b = src.span(node.left)[1], src.span(node.right)[0]
            mid = src.bytes[a:b].decode()
            for new in SWAP.get(type(node.op), []):
                keep = "(" * mid.count("(")
                back = ")" * mid.count(")")
                if isinstance(node.left, ast.Constant) and isinstance(node.left.value, str):
                    continue
                add(node, a, b, f"{back} {new} {keep}", "binop")
        elif isinstance(node, ast.UnaryOp):
            a, b = src.span(node)
            if isinstance(node.op, (ast.USub, ast.Not, ast.Invert)):
                add(node, a, b, "(" + src.get(node.operand) + ")", "unary")
        elif isinstance(node, ast.BoolOp):
            a, b = src.span(node.values[0])[1], src.span(node.values[1])[0]
            mid = src.bytes[a:b].decode()
            new = mid.replace("and", "or") if isinstance(node.op, ast.And) else (
                mid.replace("or", "and"))
            add(node, a, b, new, "boolop")
        elif isinstance(node, ast.Constant):
            a, b = src.span(node)
            v = node.value
            if v is True or v is False:
                add(node, a, b, str(not v), "bool")
            elif isinstance(v, int):
                add(node, a, b, str(v + 1), "int")
                if v > 0:
                    add(node, a, b, str(v - 1), "int")
            elif isinstance(v, float):
                add(node, a, b, repr(v * 2 + 0.1), "float")
            elif v is None and False:
                pass
        elif isinstance(node, ast.AugAssign):
            a, b = src.span(node.target)[1], src.span(node.value)[0]
            new = {ast.Add: "-=", ast.Sub: "+=", ast.BitAnd: "|=", ast.Mult: "/="}.get(
                type(node.op))
            if new:
                add(node, a, b, f" {new} ", "augassign")
        elif isinstance(node, (ast.If, ast.IfExp)):
            a, b = src.span(node.test)
            add(node, a, b, "True", "cond")
            add(node, a, b, "False", "cond")
        elif isinstance(node, ast.Call):
            f = node.func
            name = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
            new = NAMES.get(name)
            if new:
                a, b = src.span(f)
                add(node, b - len(name.encode()), b, new, "name")
            elif name == "copy" and isinstance(f, ast.Attribute) and not node.args:
                a, b = src.span(node)
                add(node, a, b, src.get(f.value), "nocopy")
            elif name in ("abs", "sorted", "array", "unique", "flip") and node.args:
                a, b = src.span(node)
                first = src.get(node.args[0])
                if name == "array" and (first[0] in "[(" or first.startswith("list")):
                    continue
                add(node, a, b, f"np.asarray({first})" if name in ("array", "unique")
                    else f"({first})", "unwrap")
            elif name in ("atleast_1d", "asarray", "int", "float", "list", "round", "sort",
                          "str") and node.args and node.col_offset:
                a, b = src.span(node)
                add(node, a, b, f"({src.get(node.args[0])})", "unwrap")
            elif name == "astype":
                a, b = src.span(node)
                add(node, a, b, src.get(f.value), "unwrap")
            for k in node.keywords:
                if k.arg is None:
                    continue
                i = [x for x in node.args + [y.value for y in node.keywords]
                     if src.span(x)[1] < src.span(k)[0]]
                start = max([src.span(x)[1] for x in i], default=None)
                if start is not None:
                    add(k, start, src.span(k)[1], "", "dropkw")
            if len(node.args) >= 2 and not any(isinstance(x, ast.Starred)
                                               for x in node.args[:2]):
                (a, b), (c, d) = src.span(node.args[0]), src.span(node.args[1])
                add(node, a, d, src.bytes[c:d].decode() + src.bytes[b:c].decode()
                    + src.bytes[a:b].decode(), "swapargs")
        elif isinstance(node, ast.Attribute) and node.attr == "T":
            a, b = src.span(node)
            add(node, a, b, src.get(node.value), "transpose")
        if isinstance(node, (ast.Expr, ast.Assign, ast.AugAssign)) and id(node) not in docs:
            a, b = src.span(node)
            if isinstance(node, ast.Assign) and node.col_offset == 0:
                continue
            add(node, a, b, "pass", "delete")
        if isinstance(node, (ast.Continue, ast.Break)):
            a, b = src.span(node)
            add(node, a, b, "pass", "delete")
        if isinstance(node, ast.Return) and node.value is not None and "self" == src.get(
                node.value):
            pass
    seen, res = set(), []
    for m in out:
        new = src.put(m["a"], m["b"], m["new"])
        if new in seen or new == text:
            continue
        seen.add(new)
        try:
            compile(new, "x", "exec")
        except SyntaxError:
            continue
        m["text"] = new
        res.append(m)
    return res


COPY = None


def init():
    global COPY
    os.environ.update(PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg")
    sys.dont_write_bytecode = True
    COPY = pathlib.Path(tempfile.mkdtemp(prefix="mut_", dir="/tmp/w"))
    shutil.copytree("/repo", COPY / "repo", symlinks=True)


def run(func, timeout):
    """Runs func in a forked child, returns its exit code"""
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.setpgid(0, 0)
            null = os.open(os.devnull, os.O_RDWR)
            for fd in (0, 1, 2):
                os.dup2(null, fd)
            code = int(func())
        finally:
            os._exit(code)
    end = time.monotonic() + timeout
    while time.monotonic() < end:
        done, status = os.waitpid(pid, os.WNOHANG)
        if done:
            return os.waitstatus_to_exitcode(status)
        time.sleep(0.05)
    os.killpg(pid, 9)
    os.waitpid(pid, 0)
    return -9


def run_tests(repo):
    import pytest

    os.chdir(repo)
    sys.path.insert(0, str(repo))
    return pytest.main(["-q", "-x", "-p", "no:cacheprovider", "--hypothesis-profile=ci",
                        "lattpy"])


def run_check(repo, pid):
    os.chdir(VERIF)
    os.environ.update(
        LATTPY_VERIF_REPO=str(repo), LATTPY_VERIF_SCALE=os.environ.get("MSCALE", "0.06"),
        LATTPY_VERIF_SHARDS="1", LATTPY_VERIF_NOSHRINK="1",
        LATTPY_VERIF_OUT=str(COPY / "out"), VERIF_SEED="1",
        LATTPY_VERIF_SCRATCH=str(COPY / "out"),
    )
    sys.path.insert(0, VERIF)
    from vlib import core

    return core.main(["--property", pid, "--tier", "quick"])


def job(arg):
    file, m = arg
    repo = COPY / "repo"
    path = repo / "lattpy" / file
    old = path.read_text()
    text = m.pop("text")
    res = dict(m, file=file)
    try:
        path.write_text(text)
        code = run(lambda: run_tests(repo), 200)
        if code != 0:
            res["result"] = "tests"
            return res
        for pid in FILES[file].split():
            code = run(lambda: run_check(repo, pid), 300)
            if code != 0:
                res["result"] = f"{pid}:{code}"
                return res
        res["result"] = "SURVIVED"
        return res
    finally:
        path.write_text(old)


class Pool:
    def __init__(self, num):
        self.ex = concurrent.futures.ProcessPoolExecutor(
            num, multiprocessing.get_context("fork"), init)

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.ex.shutdown(cancel_futures=True)

    def imap_unordered(self, func, jobs):
        futures = [self.ex.submit(func, j) for j in jobs]
        for f in concurrent.futures.as_completed(futures):
            yield f.result()


def main(out, files):
    jobs = []
    done = set()
    if os.path.exists(out):
        for x in open(out):
            x = json.loads(x)
            done.add((x["file"], x["a"], x["b"], x["new"]))
    for f in files or list(FILES):
        text = open(f"/repo/lattpy/{f}").read()
        ms = mutants(text)
        print(f, len(ms), flush=True)
        jobs += [(f, m) for m in ms if not done & {(f, m["a"], m["b"], m["new"])}]
    if out == "-":
        return
    num = int(os.environ.get("JOBS", "8"))
    with Pool(num) as pool, open(out, "a") as fh:
        for r in pool.imap_unordered(job, jobs):
            fh.write(json.dumps(r) + "\n")
            fh.flush()


if __name__ == "__main__":
    main(sys.argv[1], sys.argv[2:])
