"""Recorder for the Trig specification: tasks that wait for cycles and triggers
while the DUT drives given waveforms."""
import asyncio

import common
from common import DUT, toffee
from toffee import Bundle, Signal, Signals, SignalList, BundleList
from toffee.triggers import (AllValid, Change, ClockCycles, Condition, FallingEdge,
                             RisingEdge, Value)


class Leaf(Bundle):
    p1, p2, p3 = Signals(3)


class Nest(Bundle):
    def __init__(self):
        super().__init__()
        self.sub = Leaf()


class Listed(Bundle):
    p = SignalList("p#", 3, lambda i: str(i + 1))


class Vec(Bundle):
    def __init__(self):
        super().__init__()
        self.vec = BundleList(Leaf, "", 1)


class Aw:
    def __init__(self, dut):
        self.d = dut

    async def wait(self):
        await self.d.event.wait()


def enc(v):
    """The value that stands for the abstract value v: wider than a machine word, alike in its low bits, in the order of the abstract values."""
    return v if v < 2 else (v // 2 << 64) + v % 2


def run_program(prog):
    rec = common.new_recorder()
    e = enc if prog.get("big") else int
    waves = [[e(v) for v in w] for w in prog["waves"]]
    n = len(waves[0]) - 1
    box = {}

    def drive(c):
        for k, w in enumerate(waves):
            getattr(box["dut"], f"p{k+1}").xdata.value = w[min(c, n)]

    def on_step(c):
        rec(a="Step", t=0, i=0)
        if c > n + 4:
            rec(a="Cut", t=0, i=0)
            raise common.MaxCycles()
        drive(c)

    async def op(o, via):
        o = dict(o, v=e(o["v"]))
        d, b = box["dut"], box["bundle"]
        src = [d, b, box["nest"].sub, d, box["nest"].sub, b][via % 6]
        pins = [getattr(src, f"p{x}") for x in o["pins"]]
        k = o["k"]
        if k == "clk":
            item = [d, pins[0], b, box["nest"], box["list"], Aw(d)][via % 6]
            if via >= 6:
                await [b, box["nest"], box["list"], b, box["nest"].sub, box["list"]][via % 6].step(o["n"])
            elif o["n"] == 1 and via % 2:
                await ClockCycles(item)
            elif via % 4 == 2:
                await ClockCycles(item, ncycles=o["n"])
            else:
                await ClockCycles(item, o["n"])
        elif k == "value":
            if o["n"] == 1 and via % 2:
                await Value(pins[0], o["v"])
            elif via % 4 == 3:
                await Value(pins[0], value=o["v"], delay=o["n"])
            else:
                await Value(pins[0], o["v"], o["n"])
        elif k == "allvalid":
            if o["n"] == 1 and via % 2:
                await AllValid(*pins)
            else:
                await AllValid(*pins, delay=o["n"])
        elif k == "cond":
            x = o["pins"][0]
            item, f = [(d, lambda i: getattr(i, f"p{x}").value >= o["v"]),
                       (b, lambda i: getattr(i, f"p{x}").value >= o["v"]),
                       (pins[0], lambda i: i.value >= o["v"]),
                       (box["nest"], lambda i: getattr(i.sub, f"p{x}").value >= o["v"]),
                       (box["list"], lambda i: i.p[x - 1].value >= o["v"]),
                       (Aw(d), lambda i: getattr(i.d, f"p{x}").value >= o["v"])][via % 6]
            if prog.get("truthy"):       # conditions that are true in their own way
                g = f
                f = [lambda i: 2 * g(i), lambda i: [0] * g(i), lambda i: "no" if g(i) else None][via % 3]
            if o["n"] == 1 and via >= 6:
                await Condition(item, f)
            elif via % 4 == 1:
                await Condition(item, func=f, delay=o["n"])
            else:
                await Condition(item, f, o["n"])
        elif k == "change":
            await Change(pins[0])
        elif k == "rising":
            await RisingEdge(pins[0])
        elif k == "falling":
            await FallingEdge(pins[0])

    async def waiter(t):
        for i, o in enumerate(prog["ws"][t - 1]):
            for _ in range(prog.get("pre", 0) if i else 0):
                await asyncio.sleep(0)
            rec(a="Call", t=t, i=i + 1)
            await op(o, (prog.get("via", 0) + t * (prog.get("mul", 0)) + i) % 12)
            rec(a="Ret", t=t, i=i + 1)

    async def test():
        box["dut"] = d = DUT(["p1", "p2", "p3"], on_step=on_step)
        box["bundle"] = Leaf().bind(d)
        box["nest"] = Nest().bind(d)
        box["list"] = Listed().bind(d)
        drive(0)
        if not prog.get("late"):
            toffee.start_clock(d)
        ts = [toffee.create_task(waiter(t + 1)) for t in range(len(prog["ws"]))]
        if prog.get("late"):      # the clock is started when some already wait for it
            for _ in range(prog["late"] - 1):
                await asyncio.sleep(0)
            toffee.start_clock(d)
        for _ in range(n):
            await d.event.wait()
        return len(ts)

    v = 1
    try:
        v = 0 if common.launch(test, via=prog.get("via", 0)) == len(prog["ws"]) else 2
    except BaseException as e:  # noqa: BLE001
        v = 3
    rec(a="End", t=0, i=v)
    return {"prog": prog, "ev": rec.ev}


def run(sc):
    return [run_program(sc)]


def partial(sc, ev, kind):
    return {"prog": sc, "ev": [{"a": kind, "t": 0, "i": 0}]}
