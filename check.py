#!/usr/bin/env python3
"""check.py ID [quick|thorough] - decides one property of /verif/properties.jsonl.

Exit 0: it held on everything explored.  Exit 1 with a line
"VIOLATION property=<id> replay=<path>": it is broken."""
import json, os, sys, time, traceback

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [ROOT, os.path.join(ROOT, "gen")]
sys.dont_write_bytecode = True

from vlib import parts, props  # noqa: E402


def known_findings(prop):
    out = []
    path = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(path):
        for ln in open(path):
            ln = ln.strip()
            if ln.startswith("finding:") and f"property={prop} " in ln:
                out.append(ln)
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    os.makedirs(os.path.join(ROOT, "evidence", "replay"), exist_ok=True)
    t0 = time.time()
    ctx = parts.Ctx(prop, tier, seed)
    spec = props.PROPS[prop]
    spec["run"](ctx)
    wall = time.time() - t0
    cov = {"states": ctx.states, "transitions": ctx.transitions,
           "traces_validated_against_impl": ctx.traces, "samples": ctx.samples[:4],
           "events_validated": ctx.events, "corrupted_traces_tried": ctx.tampered[0],
           "corrupted_traces_rejected": ctx.tampered[1],
           "clauses_of_other_properties_broken": dict(ctx.other), **ctx.detail}
    if ctx.notes:
        cov["notes"] = ctx.notes
    json.dump({"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
               "coverage": cov, "assumptions": spec.get("assumptions", []),
               "wall_s": round(wall, 2), "violations": len(ctx.violations)},
              open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)
    for ln in known_findings(prop):
        print("KNOWN-FINDING: " + ln[len("finding:"):].strip())
    if ctx.violations:
        v = ctx.violations[0]
        path = os.path.join("evidence", "replay", f"{prop}.json")
        json.dump(v, open(os.path.join(ROOT, path), "w"), indent=1)
        for v in ctx.violations[:5]:
            print(f"  broken clauses {v['labels']} in {v['part']} at event {v['at']}")
        print(f"  {len(ctx.violations)} failing traces or cases of {ctx.traces}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    print(f"{prop}: held on {ctx.traces} traces/cases of the real code; "
          f"{ctx.states} states, {ctx.transitions} transitions; {wall:.1f} s")
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
