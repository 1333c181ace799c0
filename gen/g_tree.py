import random


def leaves(tree, at=()):
    out = []
    for s in tree["sigs"]:
        out.append([*at, {"n": s, "i": -1}])
    for n, k in tree["lists"]:
        out += [[*at, {"n": n, "i": i}] for i in range(k)]
    for n, t in tree["subs"]:
        out += leaves(t, (*at, {"n": n, "i": -1}))
    for n, k, t in tree["blists"]:
        for i in range(k):
            out += leaves(t, (*at, {"n": n, "i": i}))
    return out


def bundles(tree, at=()):
    """The path of every bundle of the tree, itself included."""
    out = [list(at)]
    for n, t in tree["subs"]:
        out += bundles(t, (*at, {"n": n, "i": -1}))
    for n, k, t in tree["blists"]:
        for i in range(k):
            out += bundles(t, (*at, {"n": n, "i": i}))
    return out


def tree(r, depth=2, names=("a", "b", "c", "valid", "bits", "x")):
    t = {"sigs": [], "lists": [], "subs": [], "blists": []}
    pool = r.sample(list(names), len(names))
    for _ in range(r.randrange(0 if depth < 2 else 1, 4)):
        t["sigs"].append(pool.pop())
    if r.random() < 0.35:
        t["lists"].append([r.choice(["l", "m"]), r.randrange(1, 4) if r.random() < 0.95 else 11])
    if depth > 0:
        sp = r.sample(["s", "t", "u"], 3)
        for _ in range(r.choice([0, 1, 1, 2])):
            t["subs"].append([sp.pop(), tree(r, depth - 1, names)])
        if depth == 2 and r.random() < 0.04:     # indices with two digits
            t["blists"].append(["v", 11, {"sigs": [pool.pop()], "lists": [], "subs": [], "blists": []}])
        elif r.random() < 0.4:
            t["blists"].append([r.choice(["v", "w"]), r.randrange(1, 4), tree(r, depth - 1 if r.random() < 0.4 else 0, names)])
    if not leaves(t):
        t["sigs"] = ["a"]
    return t
