"""Recorder for the Utils specification."""
import common
from toffee.utils import LFSR_64, PLRU, TwoBitsCounter


def bits(x, n=64):
    if x < 0 or x >> n:
        return [(abs(x) >> i) & 1 for i in range(max(n + 1, abs(x).bit_length()))]
    return [(x >> i) & 1 for i in range(n)]


def run(sc):
    rec = common.new_recorder()
    k = sc["kind"]
    prog = {"kind": k, "ways": sc.get("ways", 1), "init": sc.get("init", 0), "seed": sc.get("seed", [])}
    if k == "plru":
        objs = [PLRU(sc["ways"]) for _ in range(2)]
        p = objs[0]
        rec(a="Get", v=p.get())
        for i, w in enumerate(sc["hist"]):
            rec(a="Use", v=w)
            p.update(w)
            objs[1].update(i % sc["ways"])      # another one does not interfere
            for _ in range(1 + (i % 3 == 2)):
                rec(a="Get", v=p.get())
    elif k == "two":
        c = TwoBitsCounter(sc["init"]) if sc["init"] != 2 or sc.get("via") else TwoBitsCounter()
        d = TwoBitsCounter()
        rec(a="Predict", v=c.get_prediction())
        for i, t in enumerate(sc["hist"]):
            rec(a="Taken", v=t)
            c.update(bool(t) if i % 2 else t if sc.get("via", 0) < 2 else [None, "", 0, []][i // 2 % 4] if not t else [2, "x", -1, [0]][i // 2 % 4])
            d.update(1 - t)
            rec(a="Predict", v=c.get_prediction())
            rec(a="Count", v=c.counter)
    else:
        seed = sum(b << i for i, b in enumerate(sc["seed"]))
        if sc.get("neg"):
            seed = -sc["neg"]
        x = LFSR_64(seed) if seed != 1 or sc.get("via") else LFSR_64()
        y = LFSR_64(12345)
        rec(a="Rand", bits=bits(x.rand))
        for i in range(sc["n"]):
            rec(a="Step")
            x.step()
            y.step()
            if i % sc.get("every", 1) == 0:
                rec(a="Rand", bits=bits(x.rand))
    rec(a="End")
    return [{"prog": prog, "ev": rec.ev}]


def partial(sc, ev, kind):
    return {"prog": {"kind": sc["kind"], "ways": sc.get("ways", 1), "init": sc.get("init", 0),
                     "seed": sc.get("seed", [])}, "ev": [{"a": kind}]}
