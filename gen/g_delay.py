import random


def scenarios(seed, n):
    r = random.Random(seed * 31337 + 17)
    out = []
    for _ in range(n):
        if r.random() < 0.02:       # very long delays
            ds = [r.choice([32, 63, 64, 65, 100, 127, 128]) for _ in range(r.choice([1, 2]))]
            out.append({"len": 400, "models": 0, "mask": 0, "late": r.randrange(2), "early": [],
                        "waves": {"p1": [r.randrange(100) for _ in range(r.choice([7, 50]))], "p2": [r.randrange(100), None, None]},
                        "tasks": [[{"k": "new", "p": r.randrange(1, 3), "v": d} for d in ds] + [{"k": "clk", "n": 140}]]})
            continue
        length = r.randrange(4, 14)
        cnt = [0]

        def val():
            cnt[0] += 1
            return cnt[0] if r.random() < 0.7 else r.choice([0, 1, cnt[0]])

        def op(main):
            x = r.random()
            p = r.randrange(1, 4)
            if x < 0.30:
                return {"k": "write", "p": p, "v": val()}
            if x < 0.50:
                return {"k": "clk", "n": r.choice([1, 1, 1, 2, 3])}
            if x < 0.60:
                o = {"k": "new", "p": p, "v": r.choice([0, 0, 1, 1, 2, 3, 5])}
                return o if r.random() < 0.75 else dict(o, on=r.randrange(12))
            if x < 0.72:
                return {"k": "read", "p": r.randrange(9)}
            if x < 0.80:
                return {"k": "yield"}
            if x < 0.95:
                return {"k": "drive", "p": p, "v": val(), "n": int(r.random() < 0.7)}
            return {"k": "exec", "p": p, "v": val(), "n": int(r.random() < 0.3)}

        nt = r.randrange(1, 4)
        tasks = []
        for t in range(nt):
            seq = [op(t == 0) for _ in range(r.randrange(3, 14))]
            if t == 0:
                seq += [{"k": "clk", "n": length}]
                seq += [op(True) for _ in range(r.randrange(4))] + [{"k": "clk", "n": 1}]
            tasks.append(seq)
        waves = {}
        for p in ("p1", "p2", "p3"):
            if r.random() < 0.35:
                waves[p] = [val() if r.random() < 0.7 else None for _ in range(r.randrange(1, 6))]
        out.append({"len": 60 + 14 * 3 * 6, "tasks": tasks, "models": r.choice([0, 0, 1, 1, 2]), "mask": r.randrange(4),
                    "waves": waves, "late": r.choice([0, 0, 1, 1, 2, 3, 20]),
                    "early": [{"p": r.randrange(1, 4), "v": r.randrange(4)} for _ in range(r.randrange(0, 4))]})
    return out
