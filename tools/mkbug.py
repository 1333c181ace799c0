#!/opt/venv/bin/python
"""mkbug.py SPEC.py [id ...] - makes /verif/seeded/<id>/ from descriptions of planted
bugs, after confirming in a scratch copy of /repo that the bug builds, passes the
stable tests and is shown by its demonstration.

SPEC.py defines BUGS: list of dicts id, property, needs, breaks, edits [(file, old,
new)], demo (text), lib (path of a file laid beside the demonstration)."""
import json, os, re, runpy, shutil, subprocess, sys, tempfile

ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PIP_NO_INDEX="1")
SH = """#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD:$here" PYTHONDONTWRITEBYTECODE=1
exec timeout 100 /opt/venv/bin/python -W ignore "$here/demo.py"
"""


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, text=True, capture_output=True, env=ENV, **k)


def main():
    spec = runpy.run_path(sys.argv[1])
    only = sys.argv[2:]
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    base = sh(["git", "rev-list", "--max-parents=0", "HEAD"], "/repo").stdout.strip()
    for b in spec["BUGS"]:
        if only and b["id"] not in only:
            continue
        tmp = tempfile.mkdtemp(prefix="bug.")
        try:
            print(b["id"], make(b, tmp, stable, base, spec.get("LIB")), flush=True)
        finally:
            shutil.rmtree(tmp)


def make(b, tmp, stable, base, lib):
    repo, demo = tmp + "/repo", tmp + "/demo"
    shutil.copytree("/repo", repo, symlinks=True)
    os.mkdir(demo)
    open(demo + "/demo.sh", "w").write(SH)
    os.chmod(demo + "/demo.sh", 0o755)
    open(demo + "/demo.py", "w").write(b["demo"].lstrip())
    if lib:
        shutil.copy(lib, demo)
    r = sh(["bash", demo + "/demo.sh"], repo, timeout=250)
    if r.returncode:
        return f"REJECTED: the demonstration fails on the unchanged tree ({r.returncode})\n{r.stdout[-800:]}{r.stderr[-2500:]}"
    changed_base = 0
    for f, old, new in b["edits"]:
        p = os.path.join(repo, f)
        s = open(p).read()
        if s.count(old) != 1:
            return f"REJECTED: {s.count(old)} places for {old!r}"
        open(p, "w").write(s.replace(old, new))
        d = sh(["git", "diff", "-U0", "--", f], repo).stdout
        for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", d, re.M):
            n = int(m[2]) if m[2] is not None else 1
            if n:
                bl = sh(["git", "blame", "-l", "-s", "--root", "-L", f"{m[1]},+{n}", "HEAD", "--", f], repo).stdout
                changed_base += sum(ln.lstrip("^").startswith(base[:38]) for ln in bl.splitlines())
    diff = sh(["git", "diff"], repo).stdout
    r = sh([sys.executable, "-c", "import pkgutil,importlib,sys;sys.path.insert(0,'.');import toffee\n"
            "for m in pkgutil.walk_packages(toffee.__path__,'toffee.'): importlib.import_module(m.name)"], repo)
    if r.returncode:
        return "REJECTED: does not build\n" + r.stderr[-1500:]
    e = dict(ENV, PYTHONPATH=repo)
    r = subprocess.run([sys.executable, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=30", "-o",
                        "junit_family=xunit2", f"--junitxml={tmp}/j.xml", "tests"], cwd=repo, env=e, text=True,
                       capture_output=True, timeout=600)
    import xml.etree.ElementTree as ET
    passed = {f"{c.get('classname')}::{c.get('name')}" for c in ET.parse(tmp + "/j.xml").iter("testcase")
              if not any(x.tag in ("failure", "error", "skipped") for x in c)}
    if stable - passed:
        return f"REJECTED: the tests notice: {sorted(stable - passed)}"
    for _ in range(2):
        r = sh(["bash", demo + "/demo.sh"], repo, timeout=250)
        if r.returncode == 0:
            return "REJECTED: the demonstration passes with the bug"
    dst = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/seeded" if changed_base else "/tmp/bugs/extra", b["id"])
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    if os.path.isdir(dst):
        shutil.rmtree(dst)
    shutil.copytree(demo, dst)
    open(dst + "/patch.diff", "w").write(diff)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
              open(dst + "/meta.json", "w"), indent=1)
    return ("kept: " if changed_base else "only tried, it changes no line of the original: ") + (r.stdout.strip().splitlines() or r.stderr.strip().splitlines() or ["?"])[-1][:150]


main()
