"""Runs scenarios on the real code in worker processes."""
import json, os, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


class WorkerError(Exception):
    pass


def _chunk(domain, scenarios, timeout, tmp, k):
    inp, out = os.path.join(tmp, f"in{k}.json"), os.path.join(tmp, f"out{k}.jsonl")
    json.dump(scenarios, open(inp, "w"))
    open(out, "w").close()
    env = dict(os.environ)
    env.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED=os.environ.get("VERIF_SEED", "1"),
               PYTHONPYCACHEPREFIX=os.path.join(tmp, "pyc"), HOME=tmp, VERIF_SCRATCH=tmp)
    start, aborted, lines = 0, 0, []
    while start < len(scenarios):
        p = subprocess.run([PY, "-W", "ignore", os.path.join(ROOT, "harness", "worker.py"), domain, inp, out, str(start)],
                           cwd=tmp, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                           text=True, timeout=timeout)
        lines = [json.loads(x) for x in open(out)]
        nxt = (lines[-1]["i"] + 1) if lines else 0
        if p.returncode not in (0, 3):
            raise WorkerError(f"worker for {domain} ended with {p.returncode} at scenario {nxt}: "
                              + json.dumps(scenarios[nxt] if nxt < len(scenarios) else None)[:2000]
                              + "\n" + p.stderr[-3000:])
        start = nxt
        if p.returncode == 3:
            aborted += 1
            if aborted >= 2:
                break
    return lines


def run(domain, scenarios, jobs=6, timeout=800):
    """Returns [(scenario, trace)], in order; a scenario may give several traces."""
    jobs = max(1, min(jobs, (len(scenarios) + 19) // 20))
    tmp = tempfile.mkdtemp(prefix="drive.")
    try:
        parts = [scenarios[i::jobs] for i in range(jobs)]
        with ThreadPoolExecutor(jobs) as ex:
            res = list(ex.map(lambda kp: _chunk(domain, kp[1], timeout, tmp, kp[0]), enumerate(parts)))
        outp = []
        for k, lines in enumerate(res):
            for ln in lines:
                for t in ln["traces"]:
                    outp.append((ln["i"] * jobs + k, scenarios[ln["i"] * jobs + k], t))
        outp.sort(key=lambda x: x[0])
        return [(s, t) for _, s, t in outp]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
