"""Random programs for the Comp specification."""
import random


def program(r):
    n = r.randint(1, 6)
    ops = lambda m: [r.choice([{"k": "clk", "n": r.choice([0, 1, 1, 2, 3])}, {"k": "nop", "n": r.choice([0, 0, 0, 1, 3])}])  # noqa: E731
                     for _ in range(r.randrange(m))]
    comps = [ops(5) for _ in range(n)]
    p = {"comps": comps, "pre": [], "post": [], "body": ops(7) + [{"k": "clk", "n": r.randrange(3)}], "via": r.randrange(60)}
    made = set()
    for c in range(1, n + 1):
        x = r.random()
        if x < 0.15:
            p["pre"].append(c)
        elif x < 0.35:
            p["post"].append(c)
        elif x < 0.9:
            # by the body, or by the main function of a component made before
            t = 0 if not made or r.random() < 0.5 else r.choice(sorted(made))
            o = p["body"] if t == 0 else comps[t - 1]
            o.insert(r.randint(0, len(o)), {"k": "make", "n": c})
        else:
            continue
        made.add(c)
    if r.random() < 0.05:
        p["clock"] = 0
        for o in [p["body"]] + comps:
            o[:] = [x for x in o if x["k"] != "clk" or x["n"] == 0]
    elif r.random() < 0.2:      # the body starts the clock, after some turns of the event loop
        b = p["body"]
        at = min([j for j, o in enumerate(b) if o["k"] == "clk" and o["n"]] + [len(b)])
        at = r.randint(0, at)
        b[at:at] = [{"k": "nop", "n": r.choice([0, 1, 5, 40])}, {"k": "start", "n": 0}]
    return p


def scenarios(seed, n):
    r = random.Random(seed * 7919 + 3)
    return [{"runs": [program(r) for _ in range(r.choice([1, 1, 2, 3]))]} for _ in range(n)]
