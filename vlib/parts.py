"""The building blocks of a check.

A check of a property consists of parts.  Each part is one of
  * Design(module, cfg)      - TLC explores the specification exhaustively;
  * Traces(domain, module)   - scenarios (random ones and ones enumerated by TLC)
                               run on the real code, TLC validates what was recorded;
  * Replay(domain, module)   - TLC enumerates the transitions of a specification and
                               every one of them is replayed on the real code.
"""
import collections, copy, json, os, random, re, tempfile

from . import drive, tlc

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.states = self.transitions = self.traces = self.events = 0
        self.samples = []
        self.notes = []
        self.counts = collections.Counter()
        self.violations = []   # dicts: part, labels, at, scenario, trace
        self.other = collections.Counter()  # labels of other properties
        self.detail = {}
        self.tampered = [0, 0]

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick


def design(ctx, module, cfg=None, constants=None, workers=8, timeout=3000, keep=True):
    """Exhaustive exploration of a design specification; returns what it printed."""
    text = None
    if constants is not None:
        base = open(os.path.join(tlc.SPEC, cfg or module + ".cfg")).read().splitlines()
        out = []
        for ln in base:
            k = ln.split("=")[0].strip()
            if "=" in ln and k in constants:
                ln = f"  {k} = {constants[k]}"
            out.append(ln)
        text = "\n".join(out) + "\n"
    r = tlc.run(module, cfg, workers=workers, timeout=timeout, cfg_text=text, heap="12g" if ctx.thorough else "4g")
    if not r.ok:
        raise tlc.TLCError(f"the design {module} violates {r.violated}:\n" + r.text[-3000:])
    if keep:
        ctx.states += r.states
        ctx.transitions += r.transitions
    ctx.detail.setdefault("design", []).append(
        {"module": module, "constants": constants, "distinct_states": r.states,
         "states_generated": r.transitions, "wall_s": round(r.wall, 1)})
    return r.printed


def plain(x):
    """What TLC can read as JSON: no null, no floats, integers of 32 bits."""
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, bool) or isinstance(x, str):
        return x
    if isinstance(x, int) and -2**31 < x < 2**31:
        return x
    return f"<{x!r}>"


def _validate_batch(module, part, verdicts, base, workers, cfg, timeout, heap="8g"):
    """One run of TLC.  A trace on which the specification cannot even be evaluated
    gets the label "unrecognised"; the rest is validated without it."""
    todo = list(range(len(part)))
    st = tr = 0
    for attempt in range(6):
        fd, path = tempfile.mkstemp(suffix=".json")
        with os.fdopen(fd, "w") as f:
            json.dump(plain([part[k] for k in todo]), f)
        try:
            r = tlc.run(module, cfg, env={"TRACES": path}, workers=workers, timeout=timeout, heap=heap,
                        raise_error=False)
        finally:
            os.unlink(path)
        st += r.states
        tr += r.transitions
        for p in r.printed:
            verdicts[base + todo[p["verdict"] - 1]] = p
        if r.ok:
            return st, tr
        m = re.findall(r"tid = (\d+)", r.text)
        if r.violated or not m:
            raise tlc.TLCError(f"{module} did not validate: {r.violated}\n" + r.text[-3000:])
        bad = todo[int(m[-1]) - 1]
        verdicts[base + bad] = {"viol": [{"l": 0, "g": ["unrecognised"]}], "why": r.text[-1500:]}
        todo = [k for k in todo if base + k not in verdicts]
        if not todo:
            return st, tr
    for k in todo:      # not validated, several others are broken anyway
        verdicts.setdefault(base + k, {"viol": []})
    return st, tr


def validate(module, traces, workers=6, cfg="Trace.cfg", timeout=3000):
    """Returns (verdicts by trace index, distinct states, generated states)."""
    verdicts, st, tr = {}, 0, 0
    step = 2500
    for base in range(0, len(traces), step):
        a, b = _validate_batch(module, traces[base:base + step], verdicts, base, workers, cfg, timeout)
        st += a
        tr += b
    missing = [k for k in range(len(traces)) if k not in verdicts]
    if missing:
        raise tlc.TLCError(f"{module}: no verdict for traces {missing[:5]}")
    return verdicts, st, tr


def tamper(r, traces, n):
    """Corrupted copies of recorded traces, to show that the validation binds."""
    out = []
    cand = [t for t in traces if len(t["ev"]) > 3]
    for _ in range(n):
        if not cand:
            break
        t = copy.deepcopy(r.choice(cand))
        k = r.randrange(len(t["ev"]) - 1)
        x = r.random()
        if x < 0.5:
            del t["ev"][k]
        else:
            t["ev"].insert(k, copy.deepcopy(t["ev"][r.randrange(len(t["ev"]) - 1)]))
        out.append(t)
    return out


def traces(ctx, domain, module, scenarios, labels, jobs=7, tamper_n=40, cfg="Trace.cfg"):
    """Runs the scenarios on the real code and validates the recorded traces.
    labels: {label: True} of the clauses that belong to the property (or None: all)."""
    recs = drive.run(domain, scenarios, jobs=jobs, timeout=ctx.pick(800, 6000))
    trs = [t for _, t in recs]
    fakes = tamper(random.Random(ctx.seed), trs, tamper_n) if tamper_n else []
    verdicts, st, tr = validate(module, trs + fakes, cfg=cfg)
    ctx.states += st
    ctx.transitions += tr
    ctx.traces += len(trs)
    kinds = collections.Counter()
    for k, (sc, t) in enumerate(recs):
        ctx.events += len(t["ev"])
        for e in t["ev"]:
            kinds[e["a"]] += 1
        vio = verdicts[k]["viol"]
        if "crash" in t:
            vio = [{"l": 0, "g": ["crash"]}]
        mine = [(v["l"], g) for v in vio for g in v["g"]
                if labels is None or g in labels or g in ("crash", "unrecognised")]
        for v in vio:
            for g in v["g"]:
                if labels is not None and g not in labels:
                    ctx.other[g] += 1
        if mine:
            ctx.violations.append({"part": domain, "labels": sorted({g for _, g in mine}),
                                   "at": mine[0][0], "scenario": sc, "trace": t})
    for k in range(len(trs), len(trs) + len(fakes)):
        ctx.tampered[0] += 1
        ctx.tampered[1] += bool(verdicts[k]["viol"])
    ctx.detail.setdefault("traces", []).append(
        {"domain": domain, "module": module, "scenarios": len(scenarios), "traces": len(trs),
         "events_by_kind": dict(kinds), "validation_states": st})
    if trs and len(ctx.samples) < 4:
        s = min(trs, key=lambda t: abs(len(t["ev"]) - 14))
        ctx.samples.append({"domain": domain, "trace": s} if len(json.dumps(s)) < 6000 else
                           {"domain": domain, "events": s["ev"][:25]})
    return recs, verdicts


def replay(ctx, domain, cases, labels=None, jobs=7):
    """Cases enumerated by TLC, each with the outcome the specification gives; the
    recorder for the domain answers with a list of mismatches per case."""
    recs = drive.run(domain, cases, jobs=jobs, timeout=ctx.pick(800, 6000))
    n = 0
    for sc, t in recs:
        n += t.get("n", 1)
        bad = [b for b in t["bad"] if labels is None or b["label"] in labels or b["label"] in ("Crash",)]
        for b in t["bad"]:
            if labels is not None and b["label"] not in labels:
                ctx.other[b["label"]] += 1
        if bad:
            ctx.violations.append({"part": domain, "labels": sorted({b["label"] for b in bad}),
                                   "at": 0, "scenario": sc, "trace": bad[:5]})
    ctx.traces += n
    ctx.detail.setdefault("replays", []).append({"domain": domain, "cases": len(cases), "compared": n})
    if recs and len(ctx.samples) < 4:
        sc = min((s for s, _ in recs), key=lambda s: abs(len(json.dumps(s)) - 400))
        ctx.samples.append({"domain": domain, "case": sc if len(json.dumps(sc)) < 4000 else str(sc)[:4000]})
    return recs
