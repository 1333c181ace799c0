import random

E0 = {"a": "", "lvl": 0, "con": 0, "file": 0, "fmt": 1, "id": "", "msg": "", "tb": 0}


def scenarios(seed, n):
    r = random.Random(seed * 6007 + 29)
    out = []
    for _ in range(n):
        nf = r.randrange(0, 3)
        ops = []
        for i in range(r.randrange(3, 30)):
            x = r.random()
            if x < 0.2:
                ops.append(dict(E0, a="Setup", lvl=r.choice([10, 20, 30, 40, 50, 51]), con=r.randrange(2),
                                file=r.randrange(0, nf + 1), fmt=r.choice([1, 1, 2, 3])))
            elif x < 0.26:
                ops.append(dict(E0, a="Summary"))
            else:
                msg = f"m{i}" if r.random() < 0.7 else r.choice(["same", "same", "two^nlines", "50%", "{x} {}", "a %s", "x", "TB"])
                if msg == "TB":
                    ops.append(dict(E0, a="Log", lvl=40, id=r.choice(["", "x"]), msg=f"e{i}", tb=1))
                    continue
                ops.append(dict(E0, a="Log", lvl=r.choice([10, 20, 30, 40, 50, 30, 40, 15, 25, 45]),
                                id=r.choice(["", "", "", "x", "y", "id3", "0", "7"]), msg=msg))
        if r.random() < 0.006:      # very many records
            i = r.randrange(len(ops) + 1)
            o = dict(E0, a="Log", lvl=r.choice([30, 40]), id=r.choice(["x", "7", ""]), msg="many")
            ops[i:i] = [dict(E0, a="Setup", lvl=30)] + [o] * r.choice([110, 140]) + [dict(E0, a="Setup", lvl=20, con=1), dict(E0, a="Summary")]
        out.append({"files": nf, "via": r.randrange(20), "ops": ops})
    return out
