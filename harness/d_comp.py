"""Recorder for the Comp specification: components made at various moments of a run."""
import asyncio
import gc

import common
from common import DUT, toffee
from toffee import Model
from toffee.asynchronous import Component
from toffee.triggers import ClockCycles


def run_program(prog, maxcycles=60):
    rec = common.new_recorder()
    via = prog.get("via", 0)
    box = {"objs": []}

    async def activity(t, ops):
        try:
            for o in ops:
                if o["k"] == "make":
                    make(o["n"])
                elif o["k"] == "start":
                    rec(a="Clock")
                    toffee.start_clock(box["dut"])
                elif o["k"] == "nop":
                    for _ in range(o["n"]):
                        await asyncio.sleep(0)
                elif o["k"] == "clk":
                    await ClockCycles(box["dut"].a, o["n"])
                rec(a="Did", t=t)
            rec(a="Fin", t=t, canc=0)
        except asyncio.CancelledError:
            rec(a="Fin", t=t, canc=1)
            raise

    class C(Component):
        def __init__(self, c):
            self.c = c
            super().__init__()

        async def main(self):
            rec(a="Main", c=self.c)
            await activity(self.c, prog["comps"][self.c - 1])
            return self.c

    class Sub(C):
        async def main(self):
            return await super().main()

    class M(Model):
        def __init__(self, c):
            Model.__init__(self)
            self.c = c

        main = C.main

    class Idle(Model):      # a model without a main function of its own
        pass

    def make(c):
        rec(a="Make", c=c)
        o = (C, Sub, M)[(via + c) % 3](c)
        if (via + c) % 2:
            box["objs"].append(o)
        if via % 5 == 0:
            Idle()

    def setup():
        def on_step(_):
            rec(a="Step")
            if box["dut"].cycles > maxcycles:
                rec(a="Hang")
                rec.closed = True
                raise common.MaxCycles()
        box["dut"] = DUT(["a"], on_step=on_step)
        for c in prog["pre"]:
            make(c)
        if prog.get("clock", 1) and not any(o["k"] == "start" for o in prog["body"]):
            rec(a="Clock")
            toffee.start_clock(box["dut"])
        for c in prog["post"]:
            make(c)

    async def body():
        await activity(0, prog["body"])
        return 77

    async def plain():
        setup()
        return await body()

    def env_handle():
        setup()
        return 1

    async def test(_):
        return await body()

    try:
        r = common.launch(test, env_handle, via) if via % 2 else common.launch(plain if via % 4 else plain(), via=via)
        v = 0 if r == 77 else 8
    except BaseException:  # noqa: BLE001
        v = 9
    rec(a="End", v=v)
    box.clear()
    gc.collect()
    return {"prog": {k: prog[k] for k in ("comps", "pre", "post", "body")}, "ev": rec.ev}


def run(sc):
    return [run_program(p) for p in sc["runs"]]


def partial(sc, ev, kind):
    p = sc["runs"][0]
    return {"prog": {k: p[k] for k in ("comps", "pre", "post", "body")}, "ev": [{"a": kind}]}
