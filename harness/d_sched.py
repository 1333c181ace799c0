"""Recorder for the Sched specification: interprets a program of concurrent tasks
with the library's primitives and records every completed operation."""
import asyncio
import gc

import common
from common import DUT, toffee
from toffee import Bundle, Signal
from toffee.triggers import ClockCycles


class BodyError(Exception):
    pass


class Oops(Exception):
    """A task fails."""


OOPS = [Oops] + [type("Oops" + x.__name__, (Oops, x), {}) for x in (AssertionError, TimeoutError, ValueError, KeyError, OSError)]


THINGS = [None, "", [], False, (), {}, 0.0, asyncio.CancelledError(), Oops(), "a"]


class B(Bundle):
    a = Signal()


class Awaitable:
    """A clocked thing that is no pin, bundle or DUT with an event."""

    def __init__(self, dut):
        self.d = dut

    async def wait(self):
        await self.d.event.wait()


def run_program(prog, maxcycles=40):
    rec = common.new_recorder()
    tasks = prog["tasks"]
    ntasks = len(tasks)
    started, at, handle, kids = set(), {}, {}, set()
    for t in tasks:
        for o in t["ops"]:
            if o["k"] == "gather":
                kids.update(o["l"])
    box = {}

    def setup():
        def on_step(_):
            rec(a="Step", t=0, i=0, v=0)

        dut = DUT(["a"], on_step=on_step)
        orig = dut.Step

        def step(n=1):
            if dut.cycles >= maxcycles:
                rec(a="Cut", t=0, i=0, v=0)
                rec.closed = True
                raise common.MaxCycles()
            orig(n)

        dut.Step = step
        box["dut"] = dut
        box["bundle"] = B().bind(dut)
        box["aw"] = Awaitable(dut)
        box["ev"] = [toffee.Event() for _ in range(prog["nev"])]
        box["q"] = [toffee.Queue() for _ in range(prog["nq"])]
        box["n"] = 100
        if not prog.get("startat"):
            toffee.start_clock(dut)

    def thing(n):
        """The nth of some values, among them ones that are false."""
        return THINGS[n] if prog.get("odd") and n < len(THINGS) else n

    def which(x, base):
        """Its number."""
        if prog.get("odd"):
            for i, y in enumerate(THINGS):
                if x is y:
                    return base + i
        return base + x if type(x) is int else -1

    async def clk(n, via):
        if via == 0:
            await ClockCycles(box["dut"].a, n)
        elif via == 1:
            await ClockCycles(box["dut"], n)
        elif via == 2:
            await ClockCycles(box["bundle"], n)
        elif via == 3:
            await box["bundle"].step(n)
        elif via == 4:
            await ClockCycles(box["aw"], n)
        else:
            for _ in range(n):
                await ClockCycles(box["dut"])

    async def op(t, o):
        k, n = o["k"], o["n"]
        if k == "clk":
            await clk(n, o.get("m", 0))
        elif k == "sleep":
            await toffee.sleep(0)
        elif k == "set":
            box["ev"][n - 1].set()
        elif k == "clear":
            box["ev"][n - 1].clear()
        elif k == "wait":
            await box["ev"][n - 1].wait()
        elif k == "put":
            box["n"] += 1
            v = box["n"]
            await box["q"][n - 1].put(thing(v - 101))
            return v, []
        elif k == "get":
            return which(await box["q"][n - 1].get(), 101), []
        elif k == "spawn":
            nm = prog.get("named", 0)
            kw = {} if not nm or nm == 2 and n % 2 else {"name": ["worker", "main", "__mine", f"w{n}", "clock_loop"][n % 5]}
            handle[n] = toffee.create_task(body(n), **kw)
        elif k == "join":
            h = handle.get(n)
            try:
                await h
            except Oops as e:
                return e.t, []
            except asyncio.CancelledError:
                if not h.cancelled() or asyncio.current_task().cancelling():
                    raise
        elif k == "gather":
            try:
                return 0, [which(x, 2) for x in await toffee.gather(*[body(c) for c in o["l"]])]
            except Oops as e:
                return e.t, []
        elif k == "fail":
            e = OOPS[t % len(OOPS)]()
            e.t = t
            raise e
        elif k == "cancel":
            h = handle.get(n)
            if (h is None or h.done() or n == t or n in kids
                    or at.get(n) in ("join", "gather") or h.cancelling()):
                return 0, []
            h.cancel()
            return 1 if n in started else 2, []
        return 0, []

    async def body(t):
        rec(a="S", t=t, i=0, v=0)
        started.add(t)
        if t != 1:
            handle[t] = asyncio.current_task()
        try:
            for i, o in enumerate(tasks[t - 1]["ops"]):
                at[t] = o["k"]
                if t == 1 and prog.get("startat", 0) == i + 1:
                    toffee.start_clock(box["dut"])
                v, ls = await op(t, o)
                rec(a="E", t=t, i=i + 1, v=v, l=ls)
            at[t] = "ret"
            if t == 1 and prog.get("raise"):
                rec(a="F", t=t, i=0, v=2)
                raise box["exc"]
            rec(a="F", t=t, i=0, v=0)
            return box["ret"] if t == 1 else thing(t - 2)
        except Oops:
            rec(a="F", t=t, i=0, v=4)
            raise
        except asyncio.CancelledError:
            try:
                fc = tasks[t - 1].get("fc", 0)
                if fc:
                    rec(a="F", t=t, i=0, v=3)
                for _ in range(tasks[t - 1].get("fs", 0)):
                    await asyncio.sleep(0)
                if fc and not rec.closed:
                    await clk(fc, t % 6)
            except asyncio.CancelledError:      # cancelled once more, by the end of the run
                pass
            rec(a="F", t=t, i=0, v=1)
            fin = tasks[t - 1]["fin"]
            if fin:
                box["ev"][fin - 1].set()
            raise

    box["exc"], box["ret"] = BodyError(), thing(len(tasks)) if prog.get("odd") else object()
    style = prog.get("style", 0)

    def env_handle():
        setup()
        return [(1,), (1,), 1, 1, [1, 2], None, (1, [2]), ()][style]

    async def test(*a):
        want = {1: (1,), 3: (1,), 4: ([1, 2],), 5: (None,), 6: (1, [2]), 7: ()}[style]
        return await body(1) if a == want else "arguments"

    async def plain():
        setup()
        return await body(1)

    v = 9
    try:
        if style == 0:
            r = common.launch(plain, via=len(tasks))
        elif style == 2:
            r = common.launch(plain(), via=len(tasks))
        else:
            r = common.launch(test, env_handle, len(tasks))
        v = 0 if r is box["ret"] else 8
    except BaseException as e:  # noqa: BLE001
        v = 2 if e is box["exc"] else 9
    rec(a="End", t=0, i=0, v=v)
    handle.clear()
    gc.collect()
    return {"prog": prog, "ev": rec.ev}


def run(sc):
    return [run_program(p) for p in sc["runs"]]


def partial(sc, ev, kind):
    # which run it was is not known here: find it by the number of tasks
    return {"prog": sc["runs"][0], "ev": [{"a": kind, "t": 0, "i": 0, "v": 0}]}
