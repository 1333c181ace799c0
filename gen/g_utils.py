import random


def scenarios(seed, n):
    r = random.Random(seed * 65537 + 3)
    out = []
    for i in range(n):
        x = i % 4
        if x <= 1:
            ways = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 8, 16, 16, 12, 32, 33, 64, 9, 17, 31, 63, r.choice([65, 100, 127, 128, 200, 256])])
            hot = [r.randrange(ways) for _ in range(r.randrange(1, 6))]
            h = [r.choice(hot) if r.random() < 0.4 else r.randrange(ways) for _ in range(r.randrange(5, 60))]
            if r.random() < 0.2:
                h = list(range(ways)) + h
            out.append({"kind": "plru", "ways": ways, "hist": h})
        elif x == 2:
            p = r.choice([0.2, 0.5, 0.8])
            out.append({"kind": "two", "init": r.randrange(4), "via": r.randrange(4),
                        "hist": [int(r.random() < p) for _ in range(r.randrange(3, 60))]})
        else:
            v = r.choice([1, 2, 0, (1 << 64) - 1, 1 << 63, r.getrandbits(64), r.getrandbits(64), r.getrandbits(80),
                          1 << r.randrange(64), r.getrandbits(8), (1 << 64) + 5])
            neg = int(r.random() < 0.15)     # the seed is -v: all 64 bits of its two's complement
            w = -v & (1 << 64) - 1 if neg else v
            out.append({"kind": "lfsr", "seed": [(w >> i) & 1 for i in range(w.bit_length())], "via": r.randrange(2), "neg": neg and v,
                        "n": r.randrange(3, 40) if r.random() < 0.8 else 300, "every": r.choice([1, 2, 7])})
    return out
