import json
import random

PIECES = ["io_", "x", "x_", "io", "a_", "s_", "q", "io_x_", "t_", "_", "u1_"]
POST = ["_o", "_q", "x", "_io"]
ALTS = [["req_", "resp_"], ["a_", "b_"], ["m", "n"], ["r_", "rr_"], ["x", "xy"]]


def rule(r, kinds=None):
    k = r.choice(kinds or ["prefix", "prefix", "prefix", "re0", "re1", "re2", "re3", "re4", "re5", "re6", "re7", "none"])
    pre = r.choice(PIECES)
    post = r.choice(POST)
    alts = r.choice(ALTS)
    A, B = alts
    out = {"k": k, "pre": "", "post": "", "alts": [], "map": [], "text": ""}
    if k == "none":
        out["k"] = "prefix"
        return out
    if k in ("prefix", "re0", "re1", "re3", "re4", "re5", "re6", "re7"):
        out["pre"] = pre
    if k in ("re2", "re3"):
        out["post"] = post
    if k in ("re4", "re5", "re6"):
        out["alts"] = alts
    out["text"] = {"prefix": "", "dict": "", "re0": f"^{pre}(.*)$", "re1": f"{pre}(.*)", "re2": f"^(.*){post}$",
                   "re3": f"^{pre}(.*){post}$", "re4": f"^{pre}(?:{A}|{B})(.*)$", "re5": f"^{pre}({A}|{B})(.*)$",
                   "re6": f"^{pre}(?:{A}(.*)|{B}(.*))$",
                   "re7": f"^{pre}(.*)_(.*)$"}[k]
    return out


def inverse(r, ru, s):
    """A name that the rule gives `s` for, or None."""
    k, pre, post = ru["k"], ru["pre"], ru["post"]
    if k in ("prefix", "re0"):
        return pre + s
    if k == "re1":
        j = r.choice(["", "", "zz", "k_"])
        return (j + pre + s)
    if k == "re2":
        return s + post
    if k == "re3":
        return pre + s + post
    if k in ("re4", "re6"):
        return pre + r.choice(ru["alts"]) + s
    if k == "re7":
        j = r.randrange(s.rfind("_") + 1, len(s) + 1)
        return pre + s[:j] + "_" + s[j:]
    if k == "re5":
        return pre + s if any(s.startswith(a) for a in ru["alts"]) else None
    if k == "dict":
        c = [m["pin"] for m in ru["map"] if m["key"] == s]
        return c[0] if c else None


NAMES = ["a", "b", "valid", "bits", "x", "a_x", "req_a", "x_a", "m", "n1", "aa", "b_b"]


def tree(r, depth, rules):
    """A bundle class: signals, signal lists, sub-bundles with a rule, lists of bundles."""
    t = {"sigs": r.sample(NAMES, r.randrange(0, 4)), "lists": [], "subs": [], "blists": []}
    if r.random() < 0.3:
        t["lists"].append([r.choice(["l", "m2"]), r.randrange(1, 4) if r.random() < 0.95 else 11, r.choice(["l#", "#", "x_#_y", "a#", "#_#", "l#x#"]), r.choice([0, 0, 1])])
    if depth > 0:
        pool = r.sample(["s", "t", "u"], 3)
        shared = None
        for _ in range(r.choice([0, 1, 1, 2, 2])):
            if shared is None or r.random() < 0.5:
                shared = tree(r, depth - 1, rules)
            t["subs"].append([pool.pop(), sub_rule(r, shared, rules), shared])
        if r.random() < 0.05:         # numbers of two digits
            t["blists"].append([r.choice(["v", "w"]), 11, r.choice(["v#_", "#_", "x#_"]), r.choice([0, 0, 1]),
                                {"sigs": r.sample(NAMES, 1), "lists": [], "subs": [], "blists": []}])
        elif r.random() < 0.35:
            b = tree(r, 0 if r.random() < 0.7 else depth - 1, rules)
            t["blists"].append([r.choice(["v", "w"]), r.randrange(1, 4), r.choice(["v#_", "#", "#_", "x#_", "a_#_", "v#_#_"]), r.choice([0, 0, 1]), b])
    if not leaves(t):
        t["sigs"] = [r.choice(NAMES)]
    return t


def prefix_rule(s):
    return {"k": "prefix", "pre": s, "post": "", "alts": [], "map": [], "text": ""}


def leaves(t, at=(), nodes=(1,), cnt=None):
    """(path, loc, nodes) in the order of the nodes below."""
    cnt = cnt if cnt is not None else [1]
    out = [{"path": [*at, {"n": s, "i": -1}], "loc": s, "nodes": list(nodes)} for s in t["sigs"]]
    for n, k, f, off in t["lists"]:
        out += [{"path": [*at, {"n": n, "i": i}], "loc": f.replace("#", str(i + off)), "nodes": list(nodes)} for i in range(k)]
    for n, _, s in t["subs"]:
        cnt[0] += 1
        out += leaves(s, (*at, {"n": n, "i": -1}), (*nodes, cnt[0]), cnt)
    for n, k, f, off, s in t["blists"]:
        for i in range(k):
            cnt[0] += 1
            out += leaves(s, (*at, {"n": n, "i": i}), (*nodes, cnt[0]), cnt)
    return out


def nodes(t, ru, at=(), mode="-"):
    mode = ru.get("mode", mode)
    out = [{"path": list(at), "rule": {k: v for k, v in ru.items() if k != "mode"}, "mode": mode}]
    for n, s_ru, s in t["subs"]:
        out += nodes(s, s_ru, (*at, {"n": n, "i": -1}), mode)
    for n, k, f, off, s in t["blists"]:
        for i in range(k):
            out += nodes(s, prefix_rule(f.replace("#", str(i + off))), (*at, {"n": n, "i": i}), mode)
    return out


def some_modes(r, t):
    """Write modes that sub-bundles are given before they become part of another bundle."""
    for _, ru, s in t["subs"]:
        if r.random() < 0.3:
            ru["mode"] = r.choice(["imme", "rise", "fall"])
        some_modes(r, s)
    for b in t["blists"]:
        some_modes(r, b[4])


def name_of(r, ns, leaf, skip=0):
    """A name that leads to the leaf from its node number `skip` outwards."""
    s = leaf["loc"]
    for n in reversed(leaf["nodes"][skip:]):
        s = inverse(r, ns[n - 1]["rule"], s)
        if s is None or s == "":
            return None
    return s


def dict_rule(r, t):
    """A dictionary for a bundle of class t: keys lead to signals below, pins are any names."""
    ns = nodes(t, prefix_rule(""))
    m, used = [], set()
    for lf in leaves(t):
        if r.random() < 0.85:
            key = name_of(r, ns, lf)
            pin = r.choice([key, "p%d" % r.randrange(30), "io_" + str(key), lf["loc"], "d_%d" % r.randrange(30)])
            if key and pin not in used and key not in [x["key"] for x in m]:
                used.add(pin)
                m.append({"key": key, "pin": pin})
    if r.random() < 0.2 and "none" not in used:
        m.append({"key": "nothing", "pin": "none"})
    r.shuffle(m)
    return {"k": "dict", "pre": "", "post": "", "alts": [], "map": m, "text": ""}


def sub_rule(r, t, rules):
    if rules == "prefix":
        return rule(r, ["prefix", "none"])
    if r.random() < 0.2:
        return dict_rule(r, t)
    return rule(r)


def cls(r):
    mode = r.choice(["prefix", "any", "any"])
    t = tree(r, r.choice([0, 1, 1, 2, 2, 2, 3, 4]), mode)
    ru = sub_rule(r, t, mode)
    return {"tree": t, "rule": ru}


BAD = {"event", "cycles", "maxcycles_", "on_step_", "ris_", "Step", "StepRis", ""}


def pins(r, classes, extra):
    out = []
    for c in classes:
        ns, ls = nodes(c["tree"], c["rule"]), leaves(c["tree"])
        prob = r.choice([0.5, 0.8, 1.0])
        for lf in ls:
            if r.random() < prob:
                p = name_of(r, ns, lf)
                if p:
                    x = r.random()
                    if x < 0.9:
                        out.append(p)
                    if x > 0.8:          # a name that is nearly right, beside the right one or instead of it
                        out.append(r.choice([p[1:], p + "x", p.upper(), p + "_", p[:-1], "io_" + p,
                                             p.capitalize(), p[0].upper() + p[1:], p[:3].upper() + p[3:], p[:-1] + p[-1].upper()]))
    for m in extra:
        if r.random() < 0.7:
            out.append(m)
    for _ in range(r.randrange(0, 4)):
        out.append(r.choice(["clk", "z", "io_z", "rst_n", "a", "x_", "io_a"]))
    out = [p for p in dict.fromkeys(out) if p not in BAD and not p.startswith("__")]
    r.shuffle(out)
    return out[:40]


def scenarios(seed, n):
    r = random.Random(seed * 99991 + 3)
    out = []
    while len(out) < n:
        classes = [cls(r) for _ in range(r.choice([1, 1, 2]))]
        if r.random() < 0.4:     # the same class with another rule
            c = classes[0]
            classes.append({"tree": c["tree"], "rule": sub_rule(r, c["tree"], "any")})
        insts = [r.randrange(1, len(classes) + 1) for _ in range(r.choice([1, 2, 2, 3]))]
        names = [r.choice(["", "", "top", "b1"]) for _ in insts]
        via = r.randrange(60)
        if via % 5 == 3:
            for c in classes:
                some_modes(r, c["tree"])
        cd = [{"nodes": nodes(c["tree"], c["rule"]), "leaves": leaves(c["tree"])} for c in classes]
        if any(not 1 <= len(c["leaves"]) <= 16 or len(c["nodes"]) > (10 if all(len(n["path"]) != 1 or n["path"][0]["i"] < 10 for n in c["nodes"]) else 14) for c in cd):
            continue
        # rules that instances are given later
        changes = []
        for i, c in enumerate(insts, 1):
            if r.random() < 0.35:
                nd = r.randrange(1, len(cd[c - 1]["nodes"]) + 1)
                t = classes[c - 1]["tree"]
                ru = rule(r) if nd != 1 or r.random() < 0.5 else dict_rule(r, t)
                changes.append((i, nd, ru))
        ch_cls = []
        for i, nd, ru in changes:
            c = classes[insts[i - 1] - 1]
            if nd == 1:
                ch_cls.append({"tree": c["tree"], "rule": ru})
        extra = [m["pin"] for c in cd for x in c["nodes"] for m in x["rule"]["map"]]
        duts = []
        for _ in range(r.choice([1, 2, 2, 3])):
            ps = pins(r, classes + ch_cls, extra)
            if not ps:
                ps = ["a"]
            duts.append({"pins": ps, "outs": [int(r.random() < 0.25) for _ in ps]})
        ops = []
        if r.random() < 0.15:         # a bundle inside another one, which is not bound yet
            i = r.randrange(1, len(insts) + 1)
            ops.append({"a": "Bind", "i": i, "n": r.randrange(1, len(cd[insts[i - 1] - 1]["nodes"]) + 1),
                        "d": r.randrange(1, len(duts) + 1), "acc": int(r.random() < 0.7)})
        todo = list(range(1, len(insts) + 1)) if r.random() < 0.7 else []
        if r.random() < 0.1:
            i = r.randrange(1, len(insts) + 1)
            ops.append({"a": "Mode", "i": i, "n": r.randrange(1, len(cd[insts[i - 1] - 1]["nodes"]) + 1),
                        "m": r.choice(["imme", "rise", "fall"])})
        for i in todo:
            ops.append({"a": "Bind", "i": i, "n": 1, "d": r.randrange(1, len(duts) + 1), "acc": int(r.random() < 0.7)})
        for _ in range(r.randrange(1, 7)):
            i = r.randrange(1, len(insts) + 1)
            x = r.random()
            if x < 0.45:
                nn = len(cd[insts[i - 1] - 1]["nodes"])
                ops.append({"a": "Bind", "i": i, "n": r.randrange(1, nn + 1) if r.random() < 0.3 else 1, "d": r.randrange(1, len(duts) + 1), "acc": int(r.random() < 0.7)})
            elif x < 0.6 and changes:
                j, nd, ru = r.choice(changes)
                ops.append({"a": "Rule", "i": j, "n": nd, "rule": ru})
            elif x < 0.72:
                nn = len(cd[insts[i - 1] - 1]["nodes"])
                ops.append({"a": "Mode", "i": i, "n": r.randrange(1, nn + 1) if r.random() < 0.4 else 1, "m": r.choice(["imme", "rise", "fall"])})
            elif x < 0.94:
                c = insts[i - 1]
                allp = [p for d in duts for p in d["pins"]]
                lf = r.choice(cd[c - 1]["leaves"])
                nm = r.choice([r.choice(allp), name_of(r, cd[c - 1]["nodes"], lf) or "a", lf["loc"]])
                ops.append({"a": "Query", "i": i, "name": nm})
            else:
                ops.append({"a": "New", "i": i})
        if not any(o["a"] == "Bind" for o in ops):
            continue
        out.append({"trees": [c["tree"] for c in classes], "classes": cd, "insts": insts, "names": names, "duts": duts,
                    "via": via, "ops": ops})
    return out
