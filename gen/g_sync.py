"""Random programs for the Sync specification."""
import random

DUTV = ["0", "5", "''", "'a'", "(1, 2)", "None", "6"]
DUTV2 = DUTV + ["[1, 2]", "[2, 1]", "(2, 1)", "1", "True", "1.0", "False", "0.0", "{'a': 1}", "{'a': 2}", "[]", "()", "'A'",
                "4294967301", "[1, 2, 3]", "-5", "b'a'", "5.0", "' a'"]
SAME = [("0", "False", "0.0"), ("1", "True", "1.0"), ("5", "5.0")]      # values that are equal
ARGV = ["None", "None", "Odd()", "0", "''", "False", "[]", "'a'", "(1, 2)"]


PAIRS = [("[1, 2]", "[2, 1]"), ("(1, 2)", "(2, 1)"), ("[1, 2]", "(1, 2)"), ("[1, 2]", "[1, 2, 3]"), ("'a'", "'A'"), ("'a'", "' a'"),
         ("'a'", "b'a'"), ("{'a': 1}", "{'a': 2}"), ("{}", "{'a': 1}"), ("5", "4294967301"), ("5", "-5"), ("5", "'5'"), ("0", "''"),
         ("[]", "()"), ("{}", "[]"), ("1", "0"), ("0", "[]"), ("1", "2"), ("[0]", "[]"), ("'ab'", "'a'")]


def same(v):
    return next((c for c in SAME if v in c), (v,))

MONV = ["0", "Odd()", "False", "''", "[]", "5", "{}", "7", "8", "()", "1.5"]


# names of agents, driver methods and monitor methods; in some programs names are
# contained in one another
NAMES = [(["a1", "a2", "a3"], ["d1", "d2", "d3"], ["m1", "m2"]),
         (["a", "xa", "ax"], ["d", "xd", "dx"], ["m", "xm"]),
         (["b", "a_b", "b_a"], ["d", "d_d", "d_"], ["dd", "m_d"]),
         (["a", "a1", "a11"], ["a", "a1", "send"], ["a11", "send1"]),
         (["p", "q_p", "p_q"], ["r", "p_r", "r_p"], ["q", "q_r"])]


def script_of(r):
    late = r.random() < 0.3      # values that are returned later in the cycle
    return [[r.choice([0, 0, 0, 1, 2]), r.choice(["None"] + MONV), r.choice([0, 1, 2, 4, 5]) if late else 0]
            for _ in range(r.randrange(0, 8))]


def drivers_of(P):
    return [f"{a['name']}.{d['name']}" for a in P["agents"] for d in a["drivers"]]


def methods_of(P, an):
    return ([f"{an}.{d['name']}" for a in P["agents"] if a["name"] == an for d in a["drivers"]]
            + [m["path"] for m in P["mons"] if m["path"].split(".")[0] == an])


def program(r, focus):
    P = {"agents": [], "mons": [], "calls": [], "hooks": [], "ports": [], "execs": [], "models": [],
         "tasks": [], "opaque": r.random() < 0.35, "envh": r.random() < 0.5, "gkeys": r.random() < 0.3, "boom": r.randrange(7), "stepfn": r.random() < 0.15, "late": r.choice([0, 0, 0, 0, 0, 0, 1, 2, 4, 30])}
    P["inherit"] = r.choice([0, 0, 0, 1, 2, 3])
    P["sharedb"] = r.random() < 0.2
    P["mutate"] = r.random() < 0.3       # readers and hooks change what they have been given
    na = r.choice([1, 1, 2, 2, 3])
    style = r.random()
    an_, dn_, mn_ = r.choice(NAMES) if style < 0.4 else ([f"a{k}" for k in range(1, 4)],) + NAMES[0][1:]
    an_ = r.sample(an_, len(an_)) if style < 0.4 else an_
    for a in range(na):
        if a and r.random() < 0.3:        # another agent of the same class
            b = r.choice(P["agents"])
            P["agents"].append({"name": an_[a], "cls": b["cls"], "drivers": b["drivers"]})
            for m in list(P["mons"]):
                if m["path"].split(".")[0] == b["name"]:
                    P["mons"].append({"path": an_[a] + "." + m["path"].split(".")[1], "script": script_of(r)})
            continue
        ds = [{"name": dn_[k - 1], "sig": r.choice([1, 2, 2, 3] if r.random() < 0.75 else [0, 0, 1, 4, 5, 6, 7, 7, 8, 8])}
              for k in range(1, r.choice([2, 2, 3, 4]))]
        P["agents"].append({"name": an_[a], "cls": an_[a], "drivers": ds})
        for k in range(1, r.choice([1, 1, 2] if focus != "mon" else [2, 2, 3])):
            P["mons"].append({"path": f"{an_[a]}.{mn_[k - 1]}", "script": script_of(r)})
    paths = drivers_of(P)
    sig = {f"{a['name']}.{d['name']}": d["sig"] for a in P["agents"] for d in a["drivers"]}
    agents = [a["name"] for a in P["agents"]]
    prios = r.choice([[0, 1, 99], [99], [0, 0, 1], list(range(0, 100, 7)), [3, 3, 5]])
    nm = r.choice([0, 1, 1, 2, 3]) if focus != "prio" else r.choice([1, 2, 3])
    withports = focus in ("port", "mon") and r.random() < 0.8
    used = 0
    for m in range(1, nm + 1):
        md = {}
        P["models"].append(md)
        isport = withports and r.random() < 0.6
        mixed = isport and r.random() < 0.3     # ports and hooks in one model
        names = set()

        def uniq(base):
            while base in names:
                base += "_"
            names.add(base)
            return base
        if isport:
            cand = [("driver", p) for p in paths] + [("monitor", x["path"]) for x in P["mons"]]
            r.shuffle(cand)
            for kind, p in cand[:r.randrange(0, 4)]:
                an, dn = p.split(".")
                style = r.randrange(4)
                nm_ = f"p{len(P['ports'])}"
                key = {"driver": "driver", "monitor": "monitor"}[kind]
                if style == 0:
                    deco = {key + "_path": p}
                elif style == 1:
                    deco = {"agent_name": an, key + "_name": dn}
                elif style == 2 and dn not in names:
                    nm_, deco = dn, {"agent_name": an}
                else:
                    nm_, deco = f"{an}__{dn}", {}
                if nm_ in names:
                    continue
                names.add(nm_)
                P["ports"].append({"kind": kind, "paths": [p], "max": r.choice([-1, 1, 2, 3, 4]), "model": m,
                                   "name": nm_, "deco": deco})
            for _ in range(r.choice([0, 0, 1, 1, 1, 2, 3])):
                an = r.choice(agents)
                style = r.randrange(3)
                ps, nm_ = methods_of(P, an), uniq("ap")
                if style == 0:
                    deco = {"agent_name": an}
                elif style == 1:
                    l = r.sample(agents, r.randrange(1, len(agents) + 1))
                    ps, deco = [x for y in l for x in methods_of(P, y)], {"agents": l}
                else:
                    allm = [x for y in agents for x in methods_of(P, y)]
                    ps = r.sample(allm, r.randrange(1, min(3, len(allm)) + 1))
                    deco = {"methods": ps}
                P["ports"].append({"kind": "agent", "paths": ps, "max": r.choice([-1, 1, 2, 4]), "model": m,
                                   "name": nm_, "deco": deco})
        if not isport or mixed:
            for p in paths:
                if r.random() < 0.7:
                    an, dn = p.split(".")
                    style = r.randrange(4)
                    if style == 0:
                        nm_, deco = uniq("h"), {"driver_path": p}
                    elif style == 1:
                        nm_, deco = uniq("h"), {"agent_name": an, "driver_name": dn}
                    elif style == 2 and dn not in names:
                        nm_, deco = uniq(dn), {"agent_name": an}
                    elif f"{an}__{dn}" not in names:
                        nm_, deco = uniq(f"{an}__{dn}"), {}
                    else:
                        continue
                    P["hooks"].append({"kind": "driver", "paths": [p], "model": m, "name": nm_, "deco": deco})
            for _ in range(r.choice([0, 0, 1, 1, 2])):
                style = r.randrange(4)
                an = r.choice(agents)
                if style == 0 and an not in names:
                    nm_, deco, ps = uniq(an), {}, methods_of(P, an)
                elif style == 1:
                    nm_, deco, ps = uniq("g"), {"agent_name": an}, methods_of(P, an)
                elif style == 2:
                    l = r.sample(agents, r.randrange(1, len(agents) + 1))
                    nm_, deco, ps = uniq("g"), {"agents": l}, [x for y in l for x in methods_of(P, y)]
                else:
                    allm = [x for y in agents for x in methods_of(P, y)]
                    ps = r.sample(allm, r.randrange(1, min(3, len(allm)) + 1))
                    nm_, deco = uniq("g"), {"methods": ps}
                P["hooks"].append({"kind": "agent", "paths": ps, "model": m, "name": nm_, "deco": deco})
        for x in P["mons"]:
            if r.random() < 0.6:
                an, mn = x["path"].split(".")
                style = r.randrange(3)
                if style == 0:
                    nm_, deco = uniq("mh"), {"monitor_path": x["path"]}
                elif style == 1:
                    nm_, deco = uniq("mh"), {"agent_name": an, "monitor_name": mn}
                elif f"{an}__{mn}" not in names:
                    nm_, deco = uniq(f"{an}__{mn}"), {}
                else:
                    continue
                P["hooks"].append({"kind": "monitor", "paths": [x["path"]], "model": m, "name": nm_, "deco": deco,
                                   "mret": r.choice(["None", "5", "0"])})
    if P["models"] and r.random() < 0.2:        # another model of the same class
        m = r.randrange(1, len(P["models"]) + 1)
        P["models"].append({"twin": m})
        for l in (P["hooks"], P["ports"]):
            for j, x in [(j, x) for j, x in enumerate(l) if x["model"] == m]:
                l.append(dict(x, model=len(P["models"]), twin=j + 1))
    anyports = any(True for p in P["ports"])
    if r.random() < 0.03 and P["mons"]:          # a long run
        for x in P["mons"]:
            x["script"] = [[r.choice([0, 0, 0, 0, 1]), r.choice(MONV), 0] for _ in range(r.randrange(15, 40))]
        long = True
    else:
        long = False
    for p in P["ports"]:
        if long:
            p["max"] = r.choice([5, 8, 10, 16, 20, 30])
        p["drain"] = r.random() < 0.7
        if "twin" in p:
            p["max"] = P["ports"][p["twin"] - 1]["max"]
    for x in P["mons"]:
        if r.random() < 0.5:
            P["ports"].append({"kind": "queue", "paths": [x["path"]], "max": r.choice([1, 2, 4, 100] if not long else [5, 8, 10, 20, 100]), "drain": r.random() < 0.7})
    for h in P["hooks"]:
        if "twin" in h:
            t = P["hooks"][h["twin"] - 1]
            h.update({k: t[k] for k in ("prio", "order", "defaults") if k in t})
            if "wakes" in t:
                h["wakes"] = t["wakes"]
            continue
        h["prio"] = r.choice(prios)
        h["order"] = r.choice(["model_first", "dut_first"]) if h["kind"] != "monitor" else ""
        if h["kind"] != "monitor" and h["prio"] == 99 and h["order"] == "model_first" and r.random() < 0.5:
            h["defaults"] = 1
        if h["kind"] == "monitor" and h["prio"] == 0 and r.random() < 0.5:
            h["defaults"] = 1
        if r.random() < 0.25:
            h["wakes"] = [r.randrange(1, 4)]

    dutv = DUTV if r.random() < 0.5 else DUTV2
    odd = r.choice([0, 0, 0.5])

    def av(v):
        return r.choice(ARGV) if r.random() < odd else str(v)

    def new_call(plain, zero_ok):
        p = r.choice(paths)
        if not plain and r.random() < 0.25:
            p = ""
        s = 1 if p == "" else sig[p]
        if s in (0, 8) and not zero_ok:
            q = [x for x in paths if sig[x] not in (0, 8)]
            if not q:
                return None
            p = r.choice(q)
            s = sig[p]
        c = len(P["calls"]) + 1
        args, kw = [], []
        y = "agent" if s == 4 else "y"
        if p == "":
            args = [str(c)]
        elif s == 8:
            args, kw = (["None"], []) if r.random() < 0.6 else ([], [["x", "None"]])
        elif s:
            if r.random() < 0.25:
                kw.append(["x", str(c)])
                if s in (2, 3, 4) and r.random() < 0.5:
                    kw.append([y, av(20 + c)])
            else:
                args.append(str(c))
                if s in (5, 7):
                    args += [av(30 + c + i) for i in range(r.choice([0, 1, 1, 2, 3]))]
                elif s >= 2 and s != 6:
                    x = r.random()
                    if x < 0.35:
                        args.append(av(20 + c))
                    elif x < 0.6:
                        kw.append([y, av(20 + c)])
            if s in (3, 7) and r.random() < 0.5:
                kw.append(["z", av(40 + c)])
            if s in (6, 7):
                kw += [[n, av(50 + c)] for n in r.sample(["args", "name", "func", "agent", "priority"], r.choice([0, 1, 1, 2]))]
            r.shuffle(kw)
        k = {"path": p, "sig": 0 if p == "" else s, "args": args, "kw": kw, "prio": -1, "order": "",
             "ret": r.choice(dutv), "plain": plain, "dur": r.choice([0, 0, 1, 1, 2, 3])}
        if p == "":
            k["wname"] = r.choice(["work", "work", "work2"] + dn_[:1])
            k["wagent"] = r.choice(["", "", "", "obj", "agent"])
        if r.random() < 0.2:
            k["nap"] = 1
        if not plain and p != "":
            if r.random() < 0.4:
                k["prio"] = r.choice(prios)
            if r.random() < 0.4:
                k["order"] = r.choice(["model_first", "dut_first"])
                if r.random() < 0.4:
                    k["parallel"] = 1
        P["calls"].append(k)
        return c

    gets = [i + 1 for i, p in enumerate(P["ports"])]
    qs = [i + 1 for i, p in enumerate(P["ports"]) if p["kind"] == "queue"]
    ntask = r.choice([1, 2, 3, 4])
    for t in range(ntask):
        ops = []
        if t == 0:
            for q in qs:
                if r.random() < 0.8:
                    ops.append({"k": "on", "n": q})
        for _ in range(r.randrange(1, 7)):
            x = r.random()
            if x < 0.45:
                c = new_call(True, t == 0)
                if c:
                    ops.append({"k": "call", "n": c})
            elif x < 0.60:
                ops.append({"k": "clk", "n": r.choice([1, 1, 2, 3])})
            elif x < 0.66:
                ops.append({"k": "sleep", "n": 0})
            elif x < 0.72 and t > 0:
                ops.append({"k": "wait", "n": r.randrange(1, 4)})
            elif x < 0.76:
                ops.append({"k": "set", "n": r.randrange(1, 4)})
            elif x < 0.9 and not anyports:
                adds = []
                gs = r.choice([["", "", "", "g1", "g2"], ["g1", "g2", "g3", "g4"], ["", "g1", "empty"]])
                for _ in range(r.randrange(1, 6)):
                    c = new_call(False, False)
                    if c:
                        adds.append({"c": c, "g": r.choice(gs)})
                if adds:
                    P["execs"].append({"exit": r.choice(["all", "all", "any", "none"]), "adds": adds})
                    n = len(P["execs"])
                    ops.append({"k": "exec", "n": n})
                    if r.random() < 0.7:
                        if r.random() < 0.4:
                            ops.append({"k": "clk", "n": r.choice([1, 2])})
                        for _ in range(r.choice([1, 1, 1, 2])):
                            ops.append({"k": "waitall", "n": n})
            elif gets and x < 0.97:
                p = r.choice(gets)
                # a reader that may wait forever is only for tasks other than the body
                if t > 0:
                    if P["ports"][p - 1]["kind"] != "queue":
                        ops.append({"k": "get", "n": p, "r": 10 * t + len(ops) % 2})
                else:
                    ops.append({"k": "size", "n": p})
            elif gets:
                ops.append({"k": "size", "n": r.choice(gets)})
        P["tasks"].append(ops)
    for q in qs:                      # a monitor queue that is started again, which nobody waits for
        if r.random() < 0.3:
            ops = r.choice(P["tasks"])
            ops.insert(r.randrange(len(ops) + 1), {"k": "on", "n": q})
            P["ports"][q - 1]["again"] = 1
    if qs and r.random() < 0.5:       # a reader of a monitor queue, once it is enabled
        q = qs[0]
        if "again" not in P["ports"][q - 1] and {"k": "on", "n": q} in P["tasks"][0] and P["ports"][q - 1]["kind"] == "queue":
            P["tasks"].append([{"k": "sleep", "n": 0}] + [{"k": "get", "n": q, "r": 99}] * r.randrange(1, 5))
    if long:
        P["tasks"][0].append({"k": "clk", "n": r.randrange(10, 40)})
    if r.random() < 0.02:         # very many things in one cycle
        n0 = len(P["calls"])
        for _ in range(r.choice([20, 30, 40])):
            c = new_call(True, False)
            if c:
                P["calls"][c - 1]["dur"] = 0
        burst = [{"k": "call", "n": c} for c in range(n0 + 1, len(P["calls"]) + 1)]
        if r.random() < 0.5:
            P["tasks"][0] += burst
        else:
            P["tasks"].append(burst[0::2])
            P["tasks"].append(burst[1::2])
    nc = len(P["calls"])
    zero = {i for i, k in enumerate(P["calls"]) if k["sig"] in (0, 8)}
    for h in P["hooks"]:
        h["rets"] = ["None" if i in zero or r.random() < 0.3 else P["calls"][i]["ret"] for i in range(nc)]
    for h in P["hooks"]:         # results of another type that are equal
        h["rets"] = [v if i in zero or r.random() < 0.5 else r.choice(same(v)) for i, v in enumerate(h["rets"])]
    mode = r.random()
    if mode < 0.25 and nc:       # a result that differs
        for _ in range(r.choice([1, 1, 2])):
            cand = [(h, i) for h in range(len(P["hooks"])) for i in range(nc)
                    if i not in zero and P["hooks"][h]["kind"] != "monitor"
                    and P["calls"][i]["path"] in P["hooks"][h]["paths"]]
            if cand:
                h, i = r.choice(cand)
                if r.random() < 0.7:
                    P["opaque"] = P["opaque"] or r.random() < 0.4
                    P["calls"][i]["ret"], v = r.sample(r.choice(PAIRS), 2) if r.random() < 0.8 else ("None", r.choice([m for m in MONV if m != "Odd()"]))
                    for g, x in enumerate(P["hooks"]):
                        if x["rets"][i] != "None" or g == h:
                            x["rets"][i] = v if g == h else P["calls"][i]["ret"]
                    continue
                P["hooks"][h]["rets"][i] = r.choice([v for v in dutv if v not in ("None",) + same(P["calls"][i]["ret"])])
    elif mode < 0.55:            # something raises
        x = r.random()
        hs = [h for h in P["hooks"]]
        if x < 0.25 and P["mons"]:
            m = r.choice(P["mons"])
            m["script"] = m["script"][:r.randrange(0, 4)] + [[r.choice([0, 1]), "raise", 0]]
        elif x < 0.55 and hs and nc:
            h = r.choice(hs)
            h["raises"] = [r.randrange(1, nc + 1), r.choice([-1, 1])]
        elif x < 0.7 and P["models"]:
            r.choice(P["models"])["main"] = r.randrange(1, 5)
        elif P["execs"]:
            c = r.choice(r.choice(P["execs"])["adds"])["c"]
            P["calls"][c - 1]["raises"] = 1
    elif mode < 0.65 and P["execs"]:      # the call of a group that nobody waits for
        x = r.choice(P["execs"])
        x["exit"] = r.choice(["any", "none"])
        P["calls"][x["adds"][-1]["c"] - 1]["raises"] = 1
    if r.random() < 0.08:
        P["raise"] = 1
    for p in P["ports"]:
        if p["max"] == 4 and r.random() < 0.5:
            p["dmax"] = 1                        # the default
    if P["late"] > 1 and any(p["kind"] == "queue" for p in P["ports"]):
        P["late"] = 1                            # readers of a queue that is enabled by the first task
    return P


def scenarios(seed, n, focuses=("any", "prio", "mon", "port")):
    r = random.Random(seed * 104729 + 5)
    out = []
    for i in range(n):
        f = focuses[i % len(focuses)]
        out.append({"runs": [program(r, f) for _ in range(r.choice([1, 1, 1, 2]))]})
    return out
