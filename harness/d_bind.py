"""Recorder for the Bind specification."""
import asyncio
import json
import logging
import re

import common
import tree as T
from common import DUT, toffee
from toffee import Bundle, BundleList, Signal, SignalList, WriteMode

MISSING = re.compile(r'The signal that can be connected to "(.*)" is not found in dut, it should satisfy rule "(.*)"$', re.S)


class Warnings(logging.Handler):
    def __init__(self):
        super().__init__()
        self.missing = []

    def emit(self, record):
        m = MISSING.search(record.getMessage())
        if m:
            self.missing.append({"n": m[1], "rule": m[2]})


def set_rule(b, ru):
    k = ru["k"]
    if k == "prefix":
        return b.set_prefix(ru["pre"])
    if k == "dict":
        return b.set_dict({m["key"]: m["pin"] for m in ru["map"]})
    return b.set_regex(ru["text"])


def make(c, ru, style):
    """An instance of class c that binds by the rule."""
    k = ru["k"]
    if style % 2:
        return set_rule(c(), ru)
    if k == "prefix":
        return c.from_prefix(ru["pre"]) if ru["pre"] or style % 4 else c()
    if k == "dict":
        return c.from_dict({m["key"]: m["pin"] for m in ru["map"]})
    return c.from_regex(ru["text"])


class Port:
    """What a bundle class needs of an XPort."""

    def __init__(self, keys):
        self.keys = keys

    def GetKeys(self):
        return self.keys


def set_mode(b, m, k):
    if k % 2:
        {"imme": b.set_write_mode_as_imme, "rise": b.set_write_mode_as_rise, "fall": b.set_write_mode_as_fall}[m]()
    else:
        b.set_write_mode({"imme": WriteMode.Imme, "rise": WriteMode.Rise, "fall": WriteMode.Fall}[m])
    return b


def moded(b, ru):
    return set_mode(b, ru["mode"], 1) if ru.get("mode", "-") != "-" else b


def later(b, t):
    """Give the bundles inside b, an instance, their rules."""
    for n, ru, s in t["subs"]:
        later(moded(set_rule(getattr(b, n), ru), ru), s)
    for n, k, f, off, s in t["blists"]:
        for i in range(k):
            later(getattr(b, n)[i], s)
    return b


def later_all(l, s):
    for b in l.bundles:
        later(b, s)
    return l


def build(t, style, cache, late):
    """late = 1: the rules inside of sub-bundles are not part of their classes, instances get them before they
    become a part of this one.  2: a class without rules."""
    key = json.dumps([t, late])
    if key in cache:
        return cache[key]
    body = {}
    if style % 2:
        body["signals"] = list(t["sigs"])
    else:
        for s in t["sigs"]:
            body[s] = Signal()
    for n, k, f, off in t["lists"]:
        body[n] = SignalList(f, k, lambda i, off=off: str(i + off)) if off or style % 3 else SignalList(f, k)
    subs = {}
    for n, ru, s in t["subs"]:
        c = build(s, style // 2, cache, late and 2)
        subs[n] = (lambda c=c, ru=ru, s=s: later(moded(make(c, ru, style), ru), s)) if late == 1 else \
            (lambda c=c, ru=ru: make(c, {"k": "prefix", "pre": ""} if late else ru, style))
    for n, k, f, off, s in t["blists"]:
        c = build(s, style // 2, cache, late and 2)
        subs[n] = lambda c=c, k=k, f=f, off=off, s=s: later_all(
            BundleList(c, f, k, lambda i: str(i + off)) if off or style % 3 else BundleList(c, f, k), s if late == 1 else NONE)
    if style % 3 == 0:
        body.update({n: f() for n, f in subs.items()})
    else:
        def init(self):
            Bundle.__init__(self)
            for n, f in subs.items():
                setattr(self, n, f())
        body["__init__"] = init
    base = Bundle
    if style % 2 and style % 7 < 2:     # a class made from a list of names
        base = Bundle.new_class_from_list(body.pop("signals")) if style % 7 else \
            Bundle.new_class_from_xport(Port(body.pop("signals")))
    cache[key] = type("T", (base,), body)
    return cache[key]


NONE = {"subs": [], "blists": []}


class World:
    def __init__(self, prog):
        self.p = prog
        self.loop = asyncio.new_event_loop()
        cache, via = {}, prog["via"]
        self.cls = [build(t, via, cache, int(via % 5 == 3)) for t in prog["trees"]]
        self.inst = []
        for i, c in enumerate(prog["insts"]):
            b = make(self.cls[c - 1], prog["classes"][c - 1]["nodes"][0]["rule"], via + i)
            if prog["names"][i]:
                b.set_name(prog["names"][i])
            self.inst.append(b)
        self.duts = [DUT(d["pins"], outs=[p for p, o in zip(d["pins"], d["outs"]) if o]) for d in prog["duts"]]
        self.v = 0

    def cd(self, i):
        return self.p["classes"][self.p["insts"][i] - 1]

    def pins(self):
        return {(d + 1, n): getattr(x, n).xdata for d, x in enumerate(self.duts) for n in self.p["duts"][d]["pins"]}

    def conn(self, b, path):
        """Where a write to the signal goes."""
        self.v += 1
        pins = self.pins()
        before = {k: x.value for k, x in pins.items()}
        try:
            s = T.resolve(b, path)
            if path[-1]["i"] < 0 and self.v % 3 == 0:
                s = T.resolve(b, path[:-1])[path[-1]["n"]]
            s.value = self.v
            got = s.value
        except AttributeError:
            how = "refuse"
        else:
            how = "dummy" if got is None else "pin" if got == self.v else "other"
        ch = [k for k, x in pins.items() if x.value != before[k]]
        d, pin = (0, "") if not ch else ch[0] if len(ch) == 1 else (-1, "several")
        return {"d": d, "pin": pin, "how": how}

    async def clocks(self, bundles):
        async def step(b, out, k):
            try:
                await b.step()
            except Exception:
                out[k] = 0
            else:
                out[k] = -1

        out = {}
        ts = [asyncio.ensure_future(step(b, out, k)) for k, b in enumerate(bundles)]
        for _ in range(3):
            await asyncio.sleep(0)
        for d, x in enumerate(self.duts):
            x.event.set()
            x.event.clear()
            for _ in range(3):
                await asyncio.sleep(0)
            for k in out:
                if out[k] == -1:
                    out[k] = d + 1
        for t in ts:
            t.cancel()
        await asyncio.gather(*ts, return_exceptions=True)
        return [out.get(k, -2) for k in range(len(bundles))]

    def obs(self):
        n = range(len(self.inst))
        flat = [(i, nd) for i in n for nd in self.cd(i)["nodes"]]
        clk = self.loop.run_until_complete(self.clocks([T.resolve(self.inst[i], nd["path"]) for i, nd in flat]))
        clock = [[c for (j, _), c in zip(flat, clk) if j == i] for i in n]
        modes = [[getattr(x, q).xdata.mode or "-" for q in d["pins"]] for d, x in zip(self.p["duts"], self.duts)]
        return {"conn": [[self.conn(self.inst[i], lf["path"]) for lf in self.cd(i)["leaves"]] for i in n],
                "clock": clock, "modes": modes,
                "unc": [list(Bundle.detect_unconnected_signals(x)) for x in self.duts],
                "multi": [list(Bundle.detect_multiple_connections(x)) for x in self.duts]}


def dotted(path):
    return ".".join(T.elem(x) for x in path)


def run_program(prog):
    rec = common.new_recorder()
    warn = Warnings()
    toffee.setup_logging(toffee.WARNING, console_display=False)
    toffee.get_logger().addHandler(warn)
    w = World(prog)
    for k, o in enumerate(prog["ops"]):
        a, i = o["a"], o["i"] - 1
        b = w.inst[i]
        warn.missing.clear()
        if a == "Bind":
            x = w.duts[o["d"] - 1]
            b = T.resolve(b, w.cd(i)["nodes"][o["n"] - 1]["path"])
            r = b.bind(x) if o["acc"] and k % 2 else b.bind(x, bool(o["acc"])) if k % 3 else \
                b.bind(x, unconnected_signal_access=bool(o["acc"]))
            if r is not b:
                raise RuntimeError("bind does not return the bundle")
            missing = list(warn.missing)
            rec(missing=missing, obs=w.obs(), **o)
        elif a == "Rule":
            set_rule(T.resolve(b, w.cd(i)["nodes"][o["n"] - 1]["path"]), o["rule"])
            rec(obs=w.obs(), **o)
        elif a == "Mode":
            set_mode(T.resolve(b, w.cd(i)["nodes"][o["n"] - 1]["path"]), o["m"], k)
            rec(obs=w.obs(), **o)
        elif a == "Query":
            ls = w.cd(i)["leaves"]
            top = prog["names"][i] + "." if prog["names"][i] else ""
            rules = b.all_signals_rule()
            rec(any=int(b.detect_connectivity(o["name"])),
                which=[int(b.detect_specific_connectivity(o["name"], dotted(lf["path"]))) for lf in ls],
                names=[x for x, _ in b.all_signals()], rules=[str(rules.get(top + dotted(lf["path"]))) for lf in ls], nrules=len(rules), obs=w.obs(), **o)
        elif a == "New":
            c = w.cls[prog["insts"][i] - 1]
            y = c().bind(DUT(prog["duts"][0]["pins"]))
            y.set_write_mode(WriteMode.Fall)
            y.set_all(1)
            set_rule(y, {"k": "prefix", "pre": "zz"})
            rec(obs=w.obs(), **o)
    rec(a="End")
    w.loop.close()
    common.quiet_logging()
    return {"prog": public(prog), "ev": rec.ev}


def public(prog):
    d = {k: prog[k] for k in ("insts", "names", "duts")}
    d["classes"] = [dict(c, nodes=[dict(n, mode=n.get("mode", "-")) for n in c["nodes"]]) for c in prog["classes"]]
    return d


def run(sc):
    return [run_program(sc)]


def partial(sc, ev, kind):
    return {"prog": public(sc), "ev": [{"a": kind}]}
