"""Recorder for the Cov specification: operations on a coverage group and what it
reports after each of them."""
import enum
import json

import common
from common import XPin
from toffee import funcov as fc


class Target:
    def __init__(self):
        self.value = 0


def f1():
    pass


class Some:
    def f2(self):
        pass


FUNCS = {"f1": f1, "f2": Some().f2}


class Color(enum.Enum):
    RED, IDLE, EMPTY = 0, "idle", ()


SYM = [0, None, "", "idle", (), (1, 2), "0", [1], b"", {}, Color.RED, Color.IDLE, Color.EMPTY]


def condition(c, via, dec):
    k, v = c["k"], [dec(x) for x in c["v"]]
    a = via % 2
    if k == "eq":
        return (fc.CovEq if a else fc.Eq)(v[0])
    if k == "ne":
        return (fc.CovNe if a else fc.Ne)(v[0])
    if k == "gt":
        return (fc.CovGt if a else fc.Gt)(v[0])
    if k == "lt":
        return (fc.CovLt if a else fc.Lt)(v[0])
    if k == "ge":
        return (fc.CovGe if a else fc.Ge)(v[0])
    if k == "le":
        return (fc.CovLe if a else fc.Le)(v[0])
    if k == "in":
        return (fc.CovIn if a else fc.In)(list(v) if via % 3 or not isinstance(v[0], (int, float)) or dec(1) is None else set(v))
    if k == "notin":
        return (fc.CovNotIn if a else fc.NotIn)(tuple(v))
    if k == "range":
        return (fc.CovIsInRange if a else fc.IsInRange)(v[0], v[1])
    if k == "odd":
        def odd(t):
            return (t.value * 2 if dec(1) == 0.5 else t.value) % 2 == 1
        # the truth of what it gives counts
        return [odd, odd, lambda t: 2 * int(odd(t)), lambda t: "odd" if odd(t) else None, lambda t: [0] * int(odd(t))][via % 5]
    return lambda t: [False, None, 0, ""][via % 4]


def run_program(prog):
    rec = common.new_recorder()
    via, half = prog.get("via", 0), prog.get("half")      # half: all values are halves
    dec = (lambda x: x / 2) if half else (lambda x: SYM[x]) if prog.get("sym") else (lambda x: x)
    targets = [Target() if (via + i) % 2 else XPin(f"t{i}", None) for i in range(prog["targets"])]
    if via % 3 == 0 and prog["disable"]:
        g = fc.CovGroup("g")
    else:
        g = fc.CovGroup("g", disable_sample_when_point_hinted=bool(prog["disable"]))
    keys = {}   # key in the group -> name in the program

    def key(n):
        for k, x in keys.items():
            if x == n and k in g.cov_points:
                return k
        return n

    def observe(k):
        d = json.loads(str(g)) if (via + k) % 2 else g.as_dict()
        pts = []
        for p in d["points"]:
            pts.append({"name": keys.get(p["name"], p["name"]), "once": bool(p["once"]), "hinted": bool(p["hinted"]),
                        "covered": bool(g.is_point_covered(p["name"])),
                        "hits": [b["hints"] for b in p["bins"]],
                        "fns": [[x.split("::")[-1] for x in p["functions"].get(b["name"], [])] for b in p["bins"]]})
        return {"points": pts, "all": bool(g.is_all_covered()), "stopped": bool(g.sample_stoped()),
                "stop": bool(d["__stop_sample__"]),
                "hinted": bool(d["hinted"]), "count": d["__sample_count__"], "calln": d["__sample_calln__"],
                "bins": d["bin_num_total"], "binhits": d["bin_num_hints"], "npoints": d["point_num_total"],
                "pointhits": d["point_num_hints"], "hasonce": bool(d["has_once"])}

    for k, o in enumerate(prog["ops"]):
        a, err = o["a"], 0
        try:
            if a == "Set":
                targets[o["t"] - 1].value = dec(o["v"])
            elif a == "Sample":
                g.sample()
            elif a == "Stop":
                g.stop_sample()
            elif a == "Resume":
                g.resume_sample()
            elif a == "Clear":
                g.clear()
                keys.clear()
            elif a == "Add":
                bins = {}
                for i, b in enumerate(o["bins"]):
                    cs = [condition(c, via + k + i + j, dec) for j, c in enumerate(b["conds"])]
                    bins[b["name"]] = cs[0] if len(cs) == 1 and (via + k) % 3 else (cs if (via + i) % 2 else tuple(cs))
                if list(bins) == ["anonymous"] and callable(bins["anonymous"]):
                    bins = bins["anonymous"]
                kw = {} if o["once"] == 2 else {"once": bool(o["once"])}
                add = g.add_watch_point if (via + k) % 2 else g.add_cover_point
                if o["n"].startswith("auto"):
                    before = list(g.cov_points)
                    add(targets[o["t"] - 1], bins, **kw)
                    keys[[x for x in g.cov_points if x not in before][0]] = o["n"]
                else:
                    keys[o["n"]] = o["n"]
                    add(targets[o["t"] - 1], bins, o["n"], **kw)
            elif a == "Del":
                g.del_point(key(o["n"]))
            elif a == "Reset":
                g.reset_point(key(o["n"]))
            elif a == "Mark":
                ms, pat = o["mark"], []
                for j, m in enumerate(ms):
                    p = m["pat"]
                    pats = {"exact": [p, f" {p} ", p], "prefix": [p + "*", p + "[a-zA-Z0-9_]{0,12}"], "all": ["*", ".{0,99}"],
                            "suffix": ["*" + p, "[a-zA-Z0-9_]{0,12}" + p + "$"], "one": [p + "?", p + ".$"],
                            "mid": ["*" + p + "*", ".{0,12}" + p]}[m["kind"]]
                    pat.append(pats[(via + k + j) % len(pats)])
                f = [FUNCS.get(x, x) for x in o["f"]]
                if len(pat) == 1 and (via + k) % 3:
                    pat = pat[0]
                if len(f) == 1 and (via + k) % 3:
                    f = f[0]
                kw = {} if o["once"] == 1 and k % 2 else {"raise_error": o["once"] == 1}
                if pat == "*" and k % 2:
                    g.mark_function(key(o["n"]), f, **kw)
                else:
                    g.mark_function(key(o["n"]), f, pat if k % 5 else pat if isinstance(pat, str) else tuple(pat), **kw)
        except (ValueError, AssertionError):
            err = 1
        rec(err=err, obs=observe(k), **o)
    rec(a="End")
    return {"prog": {"targets": prog["targets"], "disable": prog["disable"]}, "ev": rec.ev}


def run(sc):
    return [run_program(sc)]


def partial(sc, ev, kind):
    return {"prog": {"targets": sc["targets"], "disable": sc["disable"]}, "ev": [{"a": kind}]}
