"""
Development aid: systematic mutants of the code, to find what no check notices.

  python3 tools/mutants.py list FILE...
  python3 tools/mutants.py run OUT.jsonl [-j N] FILE...     (skips mutants already in OUT)

A mutant is one small change (a statement removed, a condition made constant, a boundary
moved, a flag flipped, a line of SQL removed).  The checks for the file are run one after
another until one reports a violation.  Survivors are either equivalent, outside every
property, or something to strengthen.
"""
import ast
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

SRC = "/repo/src/_zkapauthorizer/"
CHECKS = {
    "_storage_client.py": "S02 W01 S04 U01",
    "_storage_server.py": "V01 W01 S04 S03",
    "storage_common.py": "S04 W01 S02 S03",
    "foolscap.py": "W01 S02 S04",
    "spending.py": "S01 S02 W01",
    "controller.py": "R02 R01 R03 H02 U01 S04",
    "model.py": "S01 R01 H02 R03 L01 P02 M01 S02 V01",
    "replicate.py": "P03 P05 P02 P06 P04 P01",
    "recover.py": "P04 P06 P01 T01",
    "sql.py": "P03 P02 M01",
    "schema.py": "M01 S01",
    "lease_maintenance.py": "L01 L02",
    "tahoe.py": "T01 P04",
    "resource.py": "H01 H02 P06 P05 S04",
    "private.py": "H01",
    "_plugin.py": "H01 P05 L02 S04 P06 H02",
    "config.py": "L02 S04 H01 P05",
    "configutil.py": "P05",
    "pricecalculator.py": "S04",
    "_json.py": "H02 L02",
    "validators.py": "H02 S03",
    "_base64.py": "H02 R02",
    "server/spending.py": "S03",
}
SKIP_CLASSES = {
    "NonRedeemer", "ErrorRedeemer", "DoubleSpendRedeemer", "UnpaidRedeemer", "RecordingRedeemer", "DummyRedeemer",
    "IndexedRedeemer", "MemoryGrid", "_MemoryTahoe", "MemoryTahoe",
}  # fmt: skip


def mutants(path):
    src = open(path).read()
    lines = src.split("\n")
    offs = [0]
    for l in src.encode().split(b"\n"):
        offs.append(offs[-1] + len(l) + 1)
    raw = src.encode()
    tree = ast.parse(src)

    def span(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = span(n)
        return raw[a:b].decode()

    out = []

    def add(kind, n, new, where):
        a, b = span(n)
        out.append(dict(kind=kind, line=n.lineno, where=where, old=raw[a:b].decode()[:300], new=new, span=[a, b]))

    def visit(n, where, inert):
        if isinstance(n, ast.ClassDef):
            if n.name in SKIP_CLASSES or any("Interface" in text(b) for b in n.bases):
                return
            where = n.name
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            where = where + "." + n.name if where else n.name
            if n.name.startswith("_validate"):
                return
            for s in n.body:
                visit(s, where, False)
            return
        if isinstance(n, ast.Assert) or (isinstance(n, ast.If) and "TYPE_CHECKING" in text(n.test)):
            return
        infunc = where and "." in where or (where and where[0].islower()) or (where and where[0] == "_")
        if infunc and isinstance(n, ast.stmt):
            t = text(n)
            if re.match(r"(await )?[\w.]*(_log|_logger|\blog)\.|.*\.log\(", t.split("\n")[0]):
                return
            if isinstance(n, ast.Expr):
                if isinstance(n.value, ast.Constant):
                    return
                if not isinstance(n.value, (ast.Yield,)):
                    add("delete", n, "pass", where)
            elif isinstance(n, (ast.AugAssign, ast.Raise, ast.Delete)):
                add("delete", n, "pass", where)
            elif isinstance(n, ast.Assign) and not isinstance(n.targets[0], (ast.Name, ast.Tuple)):
                add("delete", n, "pass", where)
            elif isinstance(n, ast.If):
                add("never", n.test, "False", where)
                add("always", n.test, "True", where)
            elif isinstance(n, (ast.Break, ast.Continue)):
                add("delete", n, "pass", where)
            elif isinstance(n, ast.Return) and n.value is not None and isinstance(n.value, ast.BinOp):
                pass
        if infunc and isinstance(n, ast.BoolOp):
            for v in n.values:
                add("operand", v, "True" if isinstance(n.op, ast.And) else "False", where)
        if infunc and isinstance(n, ast.Compare) and len(n.ops) == 1:
            m = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">"}.get(type(n.ops[0]))
            if m:
                add("boundary", n, "(%s) %s (%s)" % (text(n.left), m, text(n.comparators[0])), where)
        if infunc and isinstance(n, ast.Constant) and type(n.value) is bool:
            add("flag", n, str(not n.value), where)
        if infunc and isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            if not isinstance(n.left, (ast.Constant, ast.JoinedStr)) or isinstance(n.left.value if isinstance(n.left, ast.Constant) else 0, int):
                if '"' not in text(n):
                    add("arith", n, "(%s)" % text(n.left), where)
        if infunc and isinstance(n, ast.Constant) and isinstance(n.value, str) and re.search(r"\b(SELECT|INSERT|UPDATE|DELETE)\b", n.value) and n.end_lineno > n.lineno:
            for i in range(n.lineno, n.end_lineno - 1):
                l = lines[i]
                if re.match(r"\s*(AND|OR|ORDER|WHERE|LIMIT)\b", l):
                    a, b = offs[i], offs[i + 1] - 1
                    out.append(dict(kind="sql", line=i + 1, where=where, old=l, new="", span=[a, b]))
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.arguments,)) and infunc:
                continue
            visit(c, where, inert)

    visit(tree, "", False)
    return raw, out


def ident(f, m):
    return "%s:%d:%d:%s:%s" % (f, m["line"], m["span"][0], m["kind"], m["new"][:40])


def run_one(f, raw, m, jobs):
    d = tempfile.mkdtemp(prefix="zkapmu-", dir="/dev/shm")
    t0 = time.time()
    log = []
    try:
        src = d + "/src"
        shutil.copytree("/repo/src", src, ignore=shutil.ignore_patterns("__pycache__", "tests"))
        a, b = m["span"]
        new = raw[:a] + m["new"].encode() + raw[b:]
        try:
            compile(new, f, "exec")
        except SyntaxError:
            return None
        open(os.path.join(src, "_zkapauthorizer", f), "wb").write(new)
        caught = None
        for c in CHECKS[f].split():
            try:
                r = subprocess.run(
                    ["/verif/check.sh", c] + (["--jobs", str(jobs)] if jobs else []),
                    env=dict(os.environ, ZKAP_SRC=src, ZKAP_EVIDENCE=d),
                    stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600,
                )
                if r.returncode == 1 and b"VIOLATION" in r.stdout:
                    caught = c
                    log = [l for l in r.stdout.decode("utf-8", "replace").splitlines() if l.startswith("what:")][:1]
                    break
                if r.returncode not in (0, 1):
                    caught = c + " (exit %d)" % r.returncode
                    log = r.stdout.decode("utf-8", "replace").splitlines()[-3:]
                    break
            except subprocess.TimeoutExpired:
                log.append(c + " timeout")
        return dict(id=ident(f, m), file=f, **{k: m[k] for k in ("kind", "line", "where", "old", "new")}, caught=caught, log=log, s=round(time.time() - t0))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    cmd, *args = sys.argv[1:]
    if cmd == "list":
        for f in args:
            for m in mutants(SRC + f)[1]:
                print(f, m["line"], m["kind"], m["where"], "|", " ".join(m["old"].split())[:80], "=>", m["new"][:40])
        return
    out, *files = args
    jobs = None
    if files[0] == "-j":
        jobs = int(files[1])
        files = files[2:]
    have = set()
    if os.path.exists(out):
        have = {json.loads(l)["id"] for l in open(out)}
    for f in files:
        only = None
        if ":" in f:
            f, only = f.split(":")
        raw, ms = mutants(SRC + f)
        for m in ms:
            if only and not re.search(only, m["where"]):
                continue
            if ident(f, m) in have:
                continue
            r = run_one(f, raw, m, jobs)
            if r:
                with open(out, "a") as g:
                    g.write(json.dumps(r) + "\n")
                if not r["caught"]:
                    print("SURVIVED", r["id"], r["where"], "|", " ".join(r["old"].split())[:100], "=>", r["new"], r["log"], r["s"], flush=True)


if __name__ == "__main__":
    main()
