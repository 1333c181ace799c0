"""Random commands for the Dbg specification."""
import random

NAMES = ["a", "b", "top.a", "top.b", "top.sub.q", "top.sub.q2", "ab", "x_1", "step", "top2.b", "topx", "top_sub.q",
         "Top.B", "top.Sub.q", "top.mem[0]", "top.mem[1]", "top.mem", "A"]
WIDE = 2 ** 40 + 1
BAD = ["x", "1x", "0.5", "--", "3,", "0q"]


def program(r):
    names = r.sample(NAMES, r.randint(1, 5))
    sigs = [{"name": n, "width": r.choice([1, 2, 4, 8, 16, 30]), "count": r.randint(0, 1), "depth": r.choice([0, 1, 2, 3, 4, 20, 99, 100, 150])} for n in names]
    for s in sigs:
        if r.random() < 0.2:
            s["wide"] = 1        # its values are those times WIDE
    forced, cmds = set(), []

    def c(a, line, n="", v=0, s="", ok=1):
        cmds.append({"a": a, "n": n, "v": v, "s": s, "ok": ok, "line": line})

    def value(s):
        m = 2 ** s["width"] - 1
        return r.choice([0, 1, m, r.randint(0, m)])

    sp = lambda: r.choice([" ", " ", "  "])  # noqa: E731
    for _ in range(r.randint(1, 25)):
        s = r.choice(sigs)
        n = s["name"]
        known = r.random() < 0.92
        if not known:
            n = r.choice(["nope", n + "x", n.upper() + "_"])
        x = r.random()
        if x < 0.2:
            k = r.choice([0, 1, 1, 2, 3, 10, r.choice([7, 300, 1025, 2500])])
            if r.random() < 0.1:
                c("step", "tstep " + r.choice(BAD), ok=0)
            elif k == 1 and r.random() < 0.6:
                c("step", "tstep", v=1)
            else:
                c("step", f"tstep{sp()}{k}", v=k)
        elif x < 0.25:
            if r.random() < 0.2:
                c("flush", "tflush now", ok=0)
            else:
                c("flush", "tflush")
        elif x < 0.35:
            y = r.random()
            if y < 0.2:
                c("list", "tlist", v=99)
            elif y < 0.3:
                c("list", "tlist " + r.choice(BAD), ok=0)
            elif y < 0.6:
                d = r.choice([*range(6), 98, 99, 100, 200])
                c("list", f"tlist{sp()}{d}", v=d)
            else:
                d, p = r.randint(0, 5), r.choice(["top", "top.sub", "a", "zz", "top.", "top.sub.", "t", "x_", "Top", "top.Sub", "T", "top.mem", "top.mem[", "A"])
                c("list", f"tlist{sp()}{d}{sp()}{p}", v=d, s=p)
        elif x < 0.55:
            y = r.random()
            if y < 0.05:
                c("none", "tprint")
            elif y < 0.15:
                c("print", f"tprint {n} " + r.choice(["oct", "binary", "h", "x"]), n=n, s="dec", ok=0)
            elif y < 0.4:
                c("print", f"tprint{sp()}{n}", n=n, s="dec")
            else:
                t = r.choice(["bin", "hex", "dec"])
                c("print", f"tprint {n}{sp()}{r.choice([t, t, t.upper(), t.title()])}", n=n, s=t)
        elif x < 0.85:
            a = "set" if x < 0.7 else "force"
            if known and a == "set" and n in forced:
                continue
            y = r.random()
            v = value(s)
            if y < 0.04:
                c("none", "t" + a)
            elif y < 0.1:
                c(a, f"t{a} {n}", n=n, ok=0)
            elif y < 0.18:
                c(a, f"t{a} {n} " + r.choice(BAD), n=n, ok=0)
            else:
                c(a, f"t{a}{sp()}{n}{sp()}{v}", n=n, v=v)
                if s.get("wide"):
                    cmds[-1]["line"] = f"t{a} {n} {v * WIDE}"
                elif r.random() < 0.15 and s["width"] > 1:       # a negative number: two's complement
                    k = r.randint(1, 2 ** (s["width"] - 1))
                    cmds[-1].update(v=2 ** s["width"] - k, line=f"t{a} {n} -{k}")
                if a == "force" and known:
                    forced.add(n)
        elif x < 0.93:
            if r.random() < 0.05:
                c("none", "trelease")
            else:
                if known and forced and n not in forced and r.random() < 0.8:
                    n = r.choice(sorted(forced))
                c("release", f"trelease {n}", n=n)
                forced.discard(n)
        elif known:
            c("poke", "", n=n, v=value(s))
    return {"sigs": sigs, "cmds": cmds, "via": r.randrange(30)}


def scenarios(seed, n):
    r = random.Random(seed * 6271 + 5)
    return [{"runs": [program(r) for _ in range(r.choice([1, 1, 2]))]} for _ in range(n)]
