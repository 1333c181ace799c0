import random

from g_tree import bundles, leaves, tree


def scenarios(seed, n):
    r = random.Random(seed * 50021 + 7)
    out = []
    while len(out) < n:
        t = tree(r)
        ps = leaves(t)
        if not 1 <= len(ps) <= 24:
            continue
        style = r.random()
        lv = [{"path": p, "out": int(r.random() < 0.25), "width": r.choice([0, 1, 2, 8, 16, 30, 31, 32, 33, 63, 64, 65, 128, 300]),
               "conn": int(style < 0.5 or r.random() < 0.8)} for p in ps]
        bs = bundles(t)
        cnt = [0]

        def val():
            cnt[0] += 1
            return r.choice([0, 1, cnt[0], cnt[0], cnt[0]])

        ops = []
        for _ in range(r.randrange(3, 14)):
            x = r.random()
            at = r.choice(bs) if r.random() < 0.4 else []
            under = [p for p in ps if p[:len(at)] == at]
            if x < 0.38:
                flat = int(r.random() < 0.4)
                prob = r.choice([0.2, 0.5, 1.0])
                chosen = [p for p in under if r.random() < prob]
                # a list of signals is given as a whole
                heads = {repr(p[:-1] + [{"n": p[-1]["n"]}]) for p in chosen if p[-1]["i"] >= 0}
                items = [{"path": p, "v": val()} for p in under
                         if (p in chosen and p[-1]["i"] < 0) or repr(p[:-1] + [{"n": p[-1]["n"]}]) in heads]
                groups, order = {}, []
                for it in items:     # in any order, but list elements in theirs
                    key = repr(it["path"][:-1] + [{"n": it["path"][-1]["n"]}])
                    groups.setdefault(key, []).append(it)
                order = list(groups.values())
                r.shuffle(order)
                items = [it for g in order for it in g]
                if r.random() < 0.15:
                    h = r.choice([b for b in bs if b[:len(at)] == at])
                    items.insert(r.randrange(len(items) + 1) if all(i["path"][-1]["i"] < 0 for i in items) else 0,
                                 {"path": h + [{"n": "zz", "i": -1}], "v": val()})
                stars = []
                if r.random() < 0.4:
                    stars.append({"path": at, "v": val()})
                if not flat and r.random() < 0.3:
                    h = r.choice([b for b in bs if b[:len(at)] == at])
                    if h != at:
                        stars.append({"path": h, "v": val()})
                if not (flat == 0 and not items and not stars):
                    ops.append({"a": "Assign", "at": at, "flat": flat, "items": items, "stars": stars})
            elif x < 0.48:
                ops.append({"a": "SetAll", "at": at, "v": val()})
            elif x < 0.58:
                full = []
                for p in under:
                    full.append(".".join(y["n"] + (f"[{y['i']}]" if y["i"] >= 0 else "") for y in p[len(at):]))
                lo = r.choice([-1, -1, 0, 3])
                ops.append({"a": "Random", "at": at, "lo": lo, "hi": lo + r.randrange(0, 50) if lo >= 0 else -1,
                            "excl": [f for f in full if r.random() < 0.2], "seed": r.randrange(1 << 30)})
            elif x < 0.74:
                ops.append({"a": "AsDict", "at": at, "flat": r.randrange(2)})
            elif x < 0.80:
                ops.append({"a": "Back"})
            elif x < 0.86:
                ops.append({"a": "Mode", "at": at, "m": r.choice(["imme", "rise", "fall"])})
            elif x < 0.90:
                ops.append({"a": "Pin", "k": r.randrange(1, len(ps) + 1), "v": val()})
            elif x < 0.94:
                ops.append({"a": "Write", "k": r.randrange(1, len(ps) + 1), "v": val()})
            elif x < 0.98:
                ops.append({"a": "Get", "k": r.randrange(1, len(ps) + 1)})
            else:
                ops.append({"a": "Other", "v": val()})
        out.append({"tree": t, "leaves": lv, "via": r.randrange(60), "big": int(r.random() < 0.3), "ops": ops})
    return out
