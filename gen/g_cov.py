import random

E0 = {"a": "", "n": "", "t": 1, "v": 0, "once": 2, "bins": [], "mark": [], "f": []}


def cond(r, vals, sym):
    k = r.choice(["eq", "eq", "ne", "in", "notin", "never"]) if sym else r.choice(["eq", "eq", "ne", "gt", "lt", "ge", "le", "in", "notin", "range", "odd", "never"]
                 if r.random() < 0.5 else ["eq", "in", "range", "le", "ge"])
    n = {"in": r.randrange(1, 4), "notin": r.randrange(1, 4), "range": 2}.get(k, 1)
    v = [r.choice(vals) for _ in range(n)]
    return {"k": k, "v": sorted(v) if k == "range" else v}


def scenarios(seed, n):
    r = random.Random(seed * 104729 + 5)
    out = []
    for _ in range(n):
        nt = r.randrange(1, 4)
        vals = r.choice([[0, 1], [0, 1, 2, 3], [0, 1, 7, 255, 256], [0, 5], [-3, -1, 0, 1, 2, 5]])
        sym = r.random() < 0.15          # values that are no numbers
        if sym:
            vals = r.sample(range(13), r.randrange(2, 9))
        special = r.random() < 0.1      # bins whose names look like patterns
        same = nt > 1 and (special or r.random() < 0.5)      # the unnamed points have the same bins, but other targets
        names = ["A", "B", "C", "auto1", "auto2"][:r.randrange(2, 4 if special and nt == 1 else 6)]
        live, made, first = [], set(), None
        ops = []

        def add():
            nonlocal first
            x = r.choice(names)
            if x.startswith("auto") and x in made:
                x = "A"
            made.add(x)
            nb = r.choice([1, 2, 2, 3, 3, 4, 7])
            anon = r.random() < 0.15
            # an unnamed point is identified by its target and the names of its bins
            tag = "" if same else {"auto1": "u", "auto2": "w"}.get(x, "")
            bn = ["anonymous"] if anon and not tag else [tag + y for y in
                  r.sample(r.choice([["b1", "b2", "bb", "c1", "c22", "d", "b"], ["b1", "ab1", "b1b", "b", "a_b1", "cb", "b11"], ["b1", "B1", "bb", "Bb", "c", "C", "b"]]), nb)]
            bins = [{"name": y, "conds": [cond(r, vals, sym) for _ in range(r.choice([1, 1, 1, 2, 3]))]} for y in bn]
            if special:
                bn = ["b*", "b1", "b+1", "b[1]", "b.1", "a|b1", "b?"]
                if r.random() < 0.5:
                    bn.reverse()
                bins = [dict(bins[j % len(bins)], name=y) for j, y in enumerate(bn)]
            if same and x[0] == "a" and r.random() < 0.7:
                bn = first = first or bn
                bins = [dict(bins[j % len(bins)], name=y) for j, y in enumerate(bn)]
            live.append((x, bn))
            ops.append(dict(E0, a="Add", n=x, t={"auto1": 1, "auto2": 2}.get(x) if same and x[0] == "a" else r.randrange(1, nt + 1),
                            once=r.choice([0, 1, 2, 2]), bins=bins))

        add()
        for _ in range(r.randrange(5, 40)):
            x = r.random()
            if x < 0.30:
                ops.append(dict(E0, a="Set", t=r.randrange(1, nt + 1), v=r.choice(vals)))
            elif x < 0.65:
                ops.append(dict(E0, a="Sample"))
            elif x < 0.75:
                add()
            elif x < 0.80:
                ops.append(dict(E0, a="Del", n=r.choice(names)))
            elif x < 0.85:
                ops.append(dict(E0, a="Reset", n=r.choice(names)))
            elif x < 0.89:
                ops.append(dict(E0, a="Stop"))
            elif x < 0.93:
                ops.append(dict(E0, a="Resume"))
            elif x < 0.94:
                ops.append(dict(E0, a="Clear"))
                made.clear()
            else:
                n_, bn = r.choice(live)
                if r.random() < 0.1:
                    n_ = "Z"
                b = r.choice(bn)
                ms = []
                for _ in range(r.choice([1, 1, 1, 2, 3])):
                    b = r.choice(bn)
                    i = r.randrange(0, len(b) + 1)
                    ms.append({"kind": "exact", "pat": b} if special and n_ != "Z" else r.choice([
                        {"kind": "exact", "pat": b}, {"kind": "prefix", "pat": b[:i]}, {"kind": "suffix", "pat": b[i:]},
                        {"kind": "mid", "pat": b[i:i + 2]}, {"kind": "one", "pat": b[:-1]}, {"kind": "all", "pat": ""},
                        {"kind": "prefix", "pat": "zz" if r.random() < 0.5 else b}]))
                ops.append(dict(E0, a="Mark", n=n_, once=r.randrange(2), mark=ms,
                                f=r.sample(["f1", "f2", "g", "h"], r.choice([1, 1, 2]))))
        if r.random() < 0.015:          # very many samples
            i = r.randrange(len(ops))
            ops[i:i] = [dict(E0, a="Sample") for _ in range(r.choice([130, 260, 300]))]
        if r.random() < 0.01:           # very many hits of one bin
            v = r.choice(vals)
            names_ = ["b1", "b2"]
            ops[:0] = [dict(E0, a="Add", n="Many", t=1, once=0, bins=[{"name": y, "conds": [{"k": k, "v": [v]}]} for y, k in zip(names_, ["eq", "ne"])]),
                       dict(E0, a="Set", v=v)] + [dict(E0, a="Sample") for _ in range(r.choice([258, 300]))]
        out.append({"targets": nt, "disable": r.randrange(2), "via": r.randrange(12), "half": not sym and r.random() < 0.3,
                    "sym": int(sym), "ops": ops})
    return out
