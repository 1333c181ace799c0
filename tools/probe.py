#!/opt/venv/bin/python
"""probe.py SPEC.py [-j N] [id...] - tries changes without a demonstration: SPEC.py defines
PROBES = [(id, property, [(file, old, new), ...])].  Each is made in a scratch copy; if the
stable tests pass, the quick check of the property is run.  Prints what each gave."""
import json, os, re, runpy, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor, as_completed

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(pr):
    pid, prop, edits = pr
    tmp = tempfile.mkdtemp(prefix="probe.")
    try:
        repo, verif = tmp + "/repo", tmp + "/verif"
        shutil.copytree("/repo", repo, symlinks=True, ignore=shutil.ignore_patterns(".git"))
        for f, old, new in edits:
            p = os.path.join(repo, f)
            s = open(p).read()
            if s.count(old) != 1:
                return pid, prop, f"BAD EDIT ({s.count(old)} places): {old[:60]!r}"
            open(p, "w").write(s.replace(old, new))
        stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        env = dict(os.environ, PYTHONPATH=repo, PYTHONDONTWRITEBYTECODE="1")
        r = subprocess.run(["timeout", "60", "/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests"], cwd=repo, text=True,
                           capture_output=True, env=env, timeout=300)
        m = re.search(r"(\d+) passed", r.stdout)
        if not m or int(m[1]) < len(stable):
            return pid, prop, "the tests notice: " + (r.stdout.strip().splitlines() or ["?"])[-1][-200:]
        shutil.copytree(ROOT, verif, ignore=shutil.ignore_patterns("seeded", ".git", "evidence"))
        r = subprocess.run([sys.executable, "check.py", prop, "quick"], cwd=verif, text=True, capture_output=True,
                           env=dict(os.environ, VERIF_REPO=repo))
        labels = sorted(set(re.findall(r"'(\w+)'", " ".join(x for x in r.stdout.splitlines() if "broken clauses" in x))))
        n = re.search(r"(\d+) failing traces or cases of (\d+)", r.stdout)
        other = ""
        if r.returncode == 0:
            other = json.load(open(f"{verif}/evidence/{prop}.json"))["coverage"]["clauses_of_other_properties_broken"]
        elif r.returncode != 1:
            other = r.stderr[-500:]
        return pid, prop, {0: "MISSED", 1: "caught"}.get(r.returncode, "ERROR"), labels, n and n.groups(), other
    finally:
        shutil.rmtree(tmp)


def main():
    a = sys.argv[1:]
    jobs = 3
    if "-j" in a:
        k = a.index("-j")
        jobs = int(a[k + 1])
        del a[k:k + 2]
    ps = [p for p in runpy.run_path(a[0])["PROBES"] if len(a) == 1 or p[0] in a[1:]]
    with ThreadPoolExecutor(jobs) as ex:
        for f in as_completed([ex.submit(one, p) for p in ps]):
            print(*f.result(), flush=True)


main()
