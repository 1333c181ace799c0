#!/opt/venv/bin/python
"""quiet.py SPEC.py [id...] - behaviour-preserving changes: SPEC.py defines
REFACTORINGS = [(id, [(file, old, new), ...])].  Each is made in a scratch copy of /repo, the
stable tests are run, then every quick check, which has to stay silent."""
import json, os, re, runpy, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from vlib.props import PROPS


def main():
    spec = runpy.run_path(sys.argv[1])["REFACTORINGS"]
    only = [a for a in sys.argv[2:] if not re.fullmatch(r"C\d\d", a)]
    props = [a for a in sys.argv[2:] if re.fullmatch(r"C\d\d", a)] or list(PROPS)
    for rid, edits in spec:
        if only and rid not in only:
            continue
        tmp = tempfile.mkdtemp(prefix="quiet.")
        try:
            repo = tmp + "/repo"
            shutil.copytree("/repo", repo, symlinks=True, ignore=shutil.ignore_patterns(".git"))
            for f, old, new in edits:
                p = os.path.join(repo, f)
                s = open(p).read()
                if s.count(old) != 1:
                    print(rid, f"BAD EDIT ({s.count(old)} places): {old[:70]!r}")
                    break
                open(p, "w").write(s.replace(old, new))
            else:
                env = dict(os.environ, PYTHONPATH=repo, PYTHONDONTWRITEBYTECODE="1")
                r = subprocess.run(["timeout", "60", "/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests"],
                                   cwd=repo, text=True, capture_output=True, env=env)
                print(rid, "tests:", (r.stdout.strip().splitlines() or ["?"])[-1], flush=True)

                def one(prop):
                    verif = f"{tmp}/{prop}"
                    shutil.copytree(ROOT, verif, ignore=shutil.ignore_patterns("seeded", ".git", "evidence"))
                    r = subprocess.run([sys.executable, "check.py", prop, "quick"], cwd=verif, text=True, capture_output=True,
                                       env=dict(os.environ, VERIF_REPO=repo))
                    if r.returncode:
                        keep = f"/tmp/quiet-{rid}-{prop}"
                        shutil.rmtree(keep, ignore_errors=True)
                        shutil.copytree(verif, keep)
                        print(rid, prop, "ALARM" if r.returncode == 1 else "ERROR", r.stdout[-600:], r.stderr[-600:], "kept in", keep, flush=True)
                    shutil.rmtree(verif)

                with ThreadPoolExecutor(3) as ex:
                    list(ex.map(one, props))
                print(rid, "done", flush=True)
        finally:
            shutil.rmtree(tmp)


main()
