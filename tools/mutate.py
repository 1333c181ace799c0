#!/opt/venv/bin/python
"""mutate.py FILE OUT.jsonl [-j N] [-k SHARD/OF] - makes every simple mutant of one source file of the
repository in a scratch copy, drops those that the stable tests notice, runs the quick
checks of the properties the file serves and notes which mutants none of them reports.

A tool to find gaps; no check reads its output."""
import ast, json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FOR = {"asynchronous": ["C01", "C16", "C22", "C21"], "_base_agent": ["C05", "C08", "C09"], "_compare": ["C07"],
       "agent": ["C05", "C08", "C10"], "executor": ["C06", "C11", "C24"], "env": ["C10", "C05"],
       "model": ["C10", "C09", "C24"], "bundle": ["C12", "C14", "C15", "C24"], "delay": ["C16", "C24"], "triggers": ["C02"],
       "funcov": ["C17", "C24"], "logger": ["C19"], "lfsr_64": ["C18"], "plru": ["C18"], "two_bits_counter": ["C18"], "debug": ["C23"],
       "bundle_code_gen": ["C20"], "bundle_code_intel_gen": ["C20"]}
CMP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Is: "is not",
       ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.BitXor: "|", ast.LShift: ">>", ast.RShift: "<<", ast.BitAnd: "|",
       ast.BitOr: "&", ast.FloorDiv: "*", ast.Mod: "//"}


def mutants(src):
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for ln in lines:
        off.append(off[-1] + len(ln.encode()))
    b = src.encode()

    def pos(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def seg(n):
        s, e = pos(n)
        return b[s:e].decode()

    out = []

    def add(n, new, what):
        s, e = pos(n)
        out.append((n.lineno, what, (b[:s] + new.encode() + b[e:]).decode()))

    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Module)):
            if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
                doc.add(n.body[0])
                doc.add(n.body[0].value)
    for n in ast.walk(tree):
        if n in doc or isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            add(n, f"{seg(n.left)} {CMP[type(n.ops[0])]} {seg(n.comparators[0])}", f"{seg(n)} -> {CMP[type(n.ops[0])]}")
        elif isinstance(n, ast.BoolOp):
            o = " or " if isinstance(n.op, ast.And) else " and "
            add(n, "(" + o.join(f"({seg(v)})" for v in n.values) + ")", f"{seg(n)} ->{o}")
            for i in range(len(n.values)):
                v = [f"({seg(x)})" for j, x in enumerate(n.values) if j != i]
                add(n, "(" + (" and " if isinstance(n.op, ast.And) else " or ").join(v) + ")", f"{seg(n)} without {seg(n.values[i])}")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, f"({seg(n.operand)})", f"{seg(n)} -> positive")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.Constant):
            add(n, f"({seg(n.left)} {BIN[type(n.op)]} {seg(n.right)})", f"{seg(n)} -> {BIN[type(n.op)]}")
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            add(n, str(not n.value), f"line {n.lineno}: {n.value} -> {not n.value}")
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            add(n, str(n.value + 1), f"{n.value} -> {n.value + 1}")
        elif isinstance(n, (ast.If, ast.While)):
            add(n.test, "True" if isinstance(n, ast.If) else "False", f"if {seg(n.test)} -> constant")
            if isinstance(n, ast.If):
                add(n.test, "False", f"if {seg(n.test)} -> False")
            else:
                add(n.test, f"not ({seg(n.test)})", f"while not {seg(n.test)}")
        elif isinstance(n, ast.IfExp):
            add(n, seg(n.body), f"{seg(n)} -> first")
            add(n, seg(n.orelse), f"{seg(n)} -> second")
        elif isinstance(n, (ast.Break, ast.Continue)):
            add(n, "pass", f"{seg(n)} removed")
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete, ast.Raise, ast.Assert)):
            t = seg(n)
            if re.match(r"(info|warning|error|debug)\(", t):
                continue
            add(n, "pass", f"{t[:90]} removed")
        elif isinstance(n, ast.Return) and n.value is not None:
            add(n, "return", f"{seg(n)[:90]} -> return")
        elif isinstance(n, ast.Call) and len(n.args) > 1 and not any(isinstance(x, ast.Starred) for x in n.args):
            a = [seg(x) for x in n.args]
            if len(a) == 2 and a[0] != a[1]:
                s = seg(n)
                s2 = s.replace(f"{a[0]}, {a[1]}", f"{a[1]}, {a[0]}")
                if s2 != s and not re.match(r"(isinstance|hasattr|getattr|setattr)", s):
                    add(n, s2, f"{s[:80]} arguments swapped")
    return sorted(set(out))


def tests_pass(repo, tmp, stable):
    import xml.etree.ElementTree as ET
    env = dict(os.environ, PYTHONPATH=repo, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    try:
        subprocess.run([sys.executable, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=8", f"--junitxml={tmp}/j.xml", "tests"],
                       cwd=repo, env=env, text=True, capture_output=True, timeout=60)
        passed = {f"{c.get('classname')}::{c.get('name')}" for c in ET.parse(tmp + "/j.xml").iter("testcase")
                  if not any(x.tag in ("failure", "error", "skipped") for x in c)}
    except Exception:
        return False
    return not stable - passed


def one(job):
    f, line, what, text, stable = job
    tmp = tempfile.mkdtemp(prefix="mut.")
    try:
        repo, verif = tmp + "/repo", tmp + "/verif"
        shutil.copytree("/repo", repo, symlinks=True, ignore=shutil.ignore_patterns(".git", "docs"))
        open(f"{repo}/{f}", "w").write(text)
        try:
            compile(text, f, "exec")
        except SyntaxError:
            return None
        if not tests_pass(repo, tmp, stable):
            return {"line": line, "what": what, "r": "tests"}
        shutil.copytree(ROOT, verif, ignore=shutil.ignore_patterns("seeded", ".git", "evidence"))
        seen = []
        for prop in FOR[os.path.basename(f)[:-3]]:
            try:
                r = subprocess.run([sys.executable, "check.py", prop, "quick"], cwd=verif, text=True, capture_output=True,
                                   env=dict(os.environ, VERIF_REPO=repo), timeout=600)
            except subprocess.TimeoutExpired:
                return {"line": line, "what": what, "r": "timeout", "prop": prop}
            if r.returncode == 1:
                return {"line": line, "what": what, "r": "caught", "prop": prop}
            if r.returncode:
                return {"line": line, "what": what, "r": "error", "prop": prop, "err": r.stderr[-400:]}
            o = json.load(open(f"{verif}/evidence/{prop}.json"))["coverage"]["clauses_of_other_properties_broken"]
            if o:
                return {"line": line, "what": what, "r": "caught", "prop": str(o)[:200]}
            seen.append(prop)
        return {"line": line, "what": what, "r": "SURVIVED", "prop": seen}
    finally:
        shutil.rmtree(tmp)


def main():
    a = sys.argv[1:]
    n = 2
    if "-j" in a:
        i = a.index("-j")
        n = int(a[i + 1])
        del a[i:i + 2]
    f, out = a[0], a[1]
    lo, hi = (int(x) for x in a[2].split("-")) if len(a) > 2 else (0, 10 ** 9)
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    done = set()
    if os.path.exists(out):
        done = {(x["line"], x["what"]) for x in map(json.loads, open(out))}
    jobs = [(f, ln, w, t, stable) for ln, w, t in mutants(open("/repo/" + f).read())
            if lo <= ln <= hi and (ln, w) not in done]
    print(f, len(jobs), "mutants", flush=True)
    with ThreadPoolExecutor(n) as ex, open(out, "a") as o:
        for r in ex.map(one, jobs):
            if r:
                o.write(json.dumps(r) + "\n")
                o.flush()


if __name__ == "__main__":
    main()
