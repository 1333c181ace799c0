#!/opt/venv/bin/python
"""trybugs.py [-p PROPERTY] DIR... - runs the quick check of its property against each
planted bug (directories with patch.diff and meta.json), on a scratch copy."""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(d, prop=None):
    tmp = tempfile.mkdtemp(prefix="try.")
    try:
        repo, verif = tmp + "/repo", tmp + "/verif"
        shutil.copytree("/repo", repo, symlinks=True)
        shutil.copytree(ROOT, verif, ignore=shutil.ignore_patterns("seeded", ".git", "evidence"))
        subprocess.run(["git", "apply", os.path.abspath(d) + "/patch.diff"], cwd=repo, check=True)
        prop = prop or json.load(open(d + "/meta.json"))["property"]
        r = subprocess.run([sys.executable, "check.py", prop, os.environ.get("TIER", "quick")], cwd=verif, text=True, capture_output=True,
                           env=dict(os.environ, VERIF_REPO=repo))
        labels = sorted(set(re.findall(r"'(\w+)'", " ".join(x for x in r.stdout.splitlines() if "broken clauses" in x))))
        n = re.search(r"(\d+) failing traces or cases of (\d+)", r.stdout)
        other = json.load(open(f"{verif}/evidence/{prop}.json"))["coverage"]["clauses_of_other_properties_broken"] \
            if r.returncode in (0, 1) else r.stderr[-600:]
        return os.path.basename(d), prop, r.returncode, labels, n and n.groups(), other if r.returncode != 1 else ""
    finally:
        shutil.rmtree(tmp)


def main():
    a = sys.argv[1:]
    prop = None
    if a[0] == "-p":
        prop, a = a[1], a[2:]
    with ThreadPoolExecutor(2) as ex:
        for r in ex.map(lambda d: one(d.rstrip("/"), prop), a):
            print({0: "MISSED", 1: "caught"}.get(r[2], "ERROR"), *r, flush=True)


main()
