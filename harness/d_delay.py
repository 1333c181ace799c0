"""Recorder for the Delay specification: delayers while tasks write their signals,
models execute hooks and tasks wait."""
import asyncio

import common
from common import DUT, toffee
from toffee import Agent, Bundle, Delayer, Env, Model, Signals, driver_hook, driver_method, agent_hook, monitor_method
from toffee import Executor


class B(Bundle):
    p1, p2, p3 = Signals(3)


class A(Agent):
    @driver_method()
    async def drv(self, p, v):
        getattr(self.bundle, f"p{p}").value = v
        await self.bundle.step()

    @driver_method()
    async def quick(self, p, v):
        getattr(self.bundle, f"p{p}").value = v


class MSync(Model):
    @driver_hook(agent_name="a")
    def drv(self, p, v):
        return None

    @driver_hook(agent_name="a")
    def quick(self, p, v):
        return None


class MAgent(Model):
    @agent_hook("a")
    def a(self, name, args):
        return None


class E(Env):
    def __init__(self, b, models):
        super().__init__()
        self.a = A(b)
        for m in models:
            self.attach(m)


def run_program(prog):
    rec = common.new_recorder()
    box = {}
    waves = prog.get("waves", {})

    def on_step(c):
        rec(a="Step", p=0, v=0)
        if c > prog["len"] + 60:
            rec(a="Cut", p=0, v=0)
            raise common.MaxCycles()
        for p, w in waves.items():
            v = w[(c - 1) % len(w)]
            if v is not None:
                getattr(box["dut"], p).value = v

    def log(name, v):
        rec(a="Write", p=int(name[1:]), v=v)

    dl = []

    def reads(which=None):
        for i, d in enumerate(dl):
            if which is None or i % len(dl) == which % len(dl):
                v = d.value
                rec(a="Read", p=i + 1, v=-1 if v is None else v)

    async def ops(seq, depth=0):
        d, b, env = box["dut"], box["bundle"], box["env"]
        for o in seq:
            k = o["k"]
            if k == "write":
                getattr(d if o["v"] % 2 else b, f"p{o['p']}").value = o["v"]
            elif k == "clk":
                for i in range(o["n"]):
                    await (d.event.wait() if i % 2 else b.step())
                    reads()
            elif k == "new":
                if "on" in o and dl:        # of what another delayer shows
                    i = o["on"] % len(dl)
                    rec(a="New", p=4 + i, v=o["v"])
                    dl.append(Delayer(dl[i], o["v"]))
                    continue
                rec(a="New", p=o["p"], v=o["v"])
                dl.append(Delayer(getattr([d, b][o["v"] % 2], f"p{o['p']}"), o["v"]))
            elif k == "read":
                if dl:
                    reads(o["p"])
            elif k == "yield":
                await asyncio.sleep(0)
            elif k == "drive":
                await (env.a.drv if o["n"] else env.a.quick)(o["p"], o["v"])
                reads()
            elif k == "exec" and depth == 0:
                async with Executor(exit="none" if o["n"] else "all") as ex:
                    ex(env.a.drv(o["p"], o["v"]), sche_group="g1")
                    ex(ops([{"k": "clk", "n": 1}], 1), sche_group="g2")

    async def test():
        box["dut"] = d = DUT(["p1", "p2", "p3"], on_step=on_step, log=log)
        box["bundle"] = b = B().bind(d)
        if prog.get("late") == 1:
            toffee.start_clock(d)
        ms = [MSync() if (prog.get("mask", 0) >> i) % 2 else MAgent() for i in range(prog["models"])]
        box["env"] = E(b, ms)
        for o in prog.get("early", []):
            rec(a="New", p=o["p"], v=o["v"])
            dl.append(Delayer(getattr(d, f"p{o['p']}"), o["v"]))
        if not prog.get("late"):
            toffee.start_clock(d)
        for t in prog["tasks"][1:]:
            toffee.create_task(ops(t))
        if prog.get("late", 0) > 1:
            for _ in range(prog["late"] - 2):
                await asyncio.sleep(0)
            toffee.start_clock(d)
        await ops(prog["tasks"][0])
        return 7

    v = 1
    try:
        v = 0 if common.launch(test, via=prog["models"]) == 7 else 2
    except BaseException:  # noqa: BLE001
        v = 3
    rec(a="End", p=0, v=v)
    return {"prog": {"pins": 3}, "ev": rec.ev}


def run(sc):
    return [run_program(sc)]


def partial(sc, ev, kind):
    return {"prog": {"pins": 3}, "ev": [{"a": kind, "p": 0, "v": 0}]}
