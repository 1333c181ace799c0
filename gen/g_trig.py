import random


def scenarios(seed, n):
    r = random.Random(seed * 7919 + 11)
    out = []
    for _ in range(n):
        length = r.randrange(3, 14)
        vals = r.choice([[0, 1], [0, 1, 2], [0, 0, 0, 1, 5], [0, 1, 255, 2], [0, 3], [0, 2 ** 31 - 1, 2 ** 16, 256]])
        waves = [[r.choice(vals) for _ in range(length + 1)] for _ in range(3)]
        if r.random() < 0.3:   # long stable stretches
            waves = [[w[(i // 3)] for i in range(length + 1)] for w in waves]
        ws = []
        for _ in range(r.randrange(1, 9)):
            ops = []
            for _ in range(r.randrange(1, 5)):
                k = r.choice(["clk", "value", "allvalid", "cond", "change", "rising", "falling"])
                pins = [r.randrange(1, 4)] if k != "allvalid" else r.sample([1, 2, 3], r.randrange(1, 4))
                ops.append({"k": k, "pins": pins, "n": r.choice([0, 1, 1, 2, 3]), "v": r.choice(vals)})
            ws.append(ops)
        out.append({"waves": waves, "ws": ws, "via": r.randrange(12), "mul": r.randrange(12), "pre": r.randrange(4),
                    "truthy": int(r.random() < 0.3), "big": int(r.random() < 0.3), "late": r.choice([0, 0, 0, 0, 1, 2, 5, 30])})
    return out
