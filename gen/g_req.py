import random


def request(r, pins, subat):
    k = r.choice(["dict"] * 6 + ["call", "call", "none", "callnone"])
    q = {"k": k, "as": [], "star": -1, "ss": -1, "cond": [], "nf": 0, "ret": 0}
    if k in ("none", "callnone"):
        return q
    ps = r.sample(range(1, pins + 1), r.randrange(0, pins + 1))
    q["as"] = [{"p": p, "v": r.randrange(0, 9)} for p in ps]
    if r.random() < 0.25:
        q["star"] = r.randrange(0, 5)
    if subat < pins and r.random() < 0.25:
        q["ss"] = r.randrange(0, 5)
    if r.random() < 0.45:
        q["cond"] = [int(r.random() < 0.4) for _ in range(r.randrange(1, 9))]
    if r.random() < 0.3:
        q["nf"] = r.randrange(1, 3)
    if k == "dict" and r.random() < 0.5:
        q["ret"] = r.randrange(1, 4)
    return q


def scenarios(seed, n):
    r = random.Random(seed * 2741 + 41)
    out = []
    for _ in range(n):
        pins, duts, nb = r.randrange(1, 5), r.choice([1, 1, 2]), r.choice([1, 1, 2, 3])
        subat = r.choice([pins, r.randrange(0, pins)])
        ops, cur = [], [1] * nb
        for _ in range(r.randrange(1, 6)):
            x = r.random()
            if x < 0.15:
                ops.append({"a": "Step", "d": r.randrange(1, duts + 1)})
            elif x < 0.3:
                b = r.randrange(nb)
                cur[b] = r.randrange(1, duts + 1)
                ops.append({"a": "Bind", "b": b + 1, "d": cur[b]})
            qs = [request(r, pins, subat) for _ in range(r.choice([0, 1, 2, 3, 4, 5, 6]))]
            if qs and r.random() < 0.3:
                qs = [qs[r.randrange(len(qs))] for _ in range(r.randrange(1, 7))]
            ops.append({"a": "Batch", "b": r.randrange(1, nb + 1), "reqs": qs})
        if r.random() < 0.5:
            ops.append({"a": "Step", "d": cur[0]})
        out.append({"pins": pins, "duts": duts, "bundles": nb, "subat": subat, "via": r.randrange(12), "ops": ops})
    return out
