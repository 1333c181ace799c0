import random

# names that are contained in one another among them
POOLS = [(["a1", "a2", "bus", "a1_b"], ["d1", "d2", "push", "m1", "mon", "d1x"]),
         (["a1", "xa1", "a1x", "b_a1"], ["d1", "xd1", "d1x", "m1", "d1_m1"]),
         (["a", "ba", "a_a", "aa"], ["a", "ba", "d", "a_d"]),
         (["_a", "a", "a_"], ["_d", "d", "d_", "e_d"]),
         (["a", "a__b", "b"], ["d", "d__e", "e", "b__d"])]


def env(r):
    AG, ME = r.choice(POOLS)
    agents = r.sample(AG, r.randrange(1, 4))
    ms = []
    for a in agents:
        for n in r.sample(ME, r.randrange(1, 4)):
            ms.append({"agent": a, "name": n, "kind": r.choice(["driver", "driver", "monitor"])})
    return agents, ms


def near(r, s):
    x = r.choice([s, s, s, s, s, s, s + "x", "x" + s, s[:-1] or s, s[1:] or s, s.upper(), "zz"])
    return (x if x == s else x.strip("_") or s) + r.choice([""] * 11 + [".d", ".a1", "."])


def decl(r, agents, ms, fns, wrong):
    nr = (lambda s: near(r, s)) if wrong else (lambda s: s)
    k = r.choice(["dh", "dh", "mh", "ah", "dp", "mp", "ap"])
    d = {"k": k, "fn": f"f{len(fns)}", "path": "", "agent": "", "member": "", "agents": [], "methods": []}
    if k in ("ah", "ap"):
        x = r.random()
        if x < 0.25:
            d["agent"] = nr(r.choice(agents))
            if r.random() < 0.3:
                d["methods"] = [p for p in (nr(q["agent"] + "." + q["name"]) for q in r.sample(ms, 1))]
        elif x < 0.45:
            d["fn"] = nr(r.choice(agents))
        elif x < 0.7:
            d["agents"] = list(dict.fromkeys(nr(a) for a in r.sample(agents, r.randrange(1, len(agents) + 1))))
            if r.random() < 0.4:
                d["methods"] = list(dict.fromkeys(nr(q["agent"] + "." + q["name"]) for q in r.sample(ms, r.randrange(1, min(3, len(ms)) + 1))))
        else:
            d["methods"] = list(dict.fromkeys(nr(q["agent"] + "." + q["name"]) for q in r.sample(ms, r.randrange(1, min(4, len(ms)) + 1))))
            if r.random() < 0.1:
                d["methods"].append(d["methods"][0])
    else:
        c = [q for q in ms if (q["kind"] == "driver") == (k in ("dh", "dp"))]
        q = r.choice(c) if c and (not wrong or r.random() < 0.9) else r.choice(ms)
        if not c and not wrong:
            return None
        a, n = nr(q["agent"]), nr(q["name"])
        x = r.random()
        if x < 0.3:
            d["path"] = f"{a}.{n}"
        elif x < 0.55:
            d["agent"], d["member"] = a, n
        elif x < 0.8:
            d["agent"], d["fn"] = a, n
        else:
            d["fn"] = f"{a}__{n}"
    if d["fn"] in fns or d["fn"] in ("main", "no", "ports") or not d["fn"].isidentifier():
        return None
    if x >= 0.8 and k not in ("ah", "ap") and (d["fn"].count("__") != 1 or "___" in d["fn"]):
        return None            # which of the double underscores stands for the dot is nowhere said
    return d


def scenarios(seed, n):
    r = random.Random(seed * 31337 + 1)
    out = []
    while len(out) < n:
        es = [env(r) for _ in range(r.choice([1, 1, 2, 2, 3]))]
        if r.random() < 0.4 and len(es) > 1:       # another environment of the same shape, or nearly so
            a, ms = es[0]
            ms2 = [dict(q) for q in ms]
            if r.random() < 0.6:
                x = r.randrange(len(ms2))
                if r.random() < 0.5:
                    ms2[x]["kind"] = "monitor" if ms2[x]["kind"] == "driver" else "driver"
                elif len([q for q in ms2 if q["agent"] == ms2[x]["agent"]]) > 1:
                    del ms2[x]
            es[1] = (a, ms2)
        classes = []
        for _ in range(r.choice([1, 1, 2, 3])):
            a, ms = r.choice(es)
            wrong = r.random() < 0.35
            fns, ds = set(), []
            for _ in range(r.randrange(1, 5)):
                d = decl(r, a, ms, fns, wrong)
                if d is not None:
                    single = [x for x in ds if x["k"] == d["k"]]
                    if d["k"] not in ("ah", "ap") and single and not wrong and r.random() < 0.9:
                        def target(x):
                            return x["path"] or (x["agent"] + "." + (x["member"] or x["fn"]) if x["agent"]
                                                 else x["fn"].replace("__", "."))
                        if any(target(x) == target(d) for x in single):
                            continue
                    fns.add(d["fn"])
                    ds.append(d)
            if ds:
                classes.append(ds)
        if not classes:
            continue
        insts = [r.randrange(1, len(classes) + 1) for _ in range(r.choice([1, 2, 2, 3]))]
        ops = []
        at = {}
        for _ in range(r.randrange(1, 7)):
            m, e = r.randrange(1, len(insts) + 1), r.randrange(1, len(es) + 1)
            if r.random() < 0.65 or m not in at:
                ops.append({"a": "Attach", "m": m, "e": e})
                at[m] = e
            else:
                ops.append({"a": "Unattach", "m": m, "e": at[m] if r.random() < 0.8 else e})
        out.append({"agents": [e[0] for e in es], "envs": [e[1] for e in es], "classes": classes, "insts": insts,
                    "via": r.randrange(60), "ops": ops})
    return out
