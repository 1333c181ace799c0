"""Recorder for the Decl specification: what is accepted and refused, and what is left of it."""
import common
from common import DUT, toffee
from toffee import (Agent, AgentPort, Bundle, BundleList, Delayer, DriverPort, Env, Executor, Model, MonitorPort, Signal,
                    SignalList, agent_hook, driver_hook, driver_method, monitor_hook, monitor_method)
from toffee.funcov import CovEq, CovGroup

NONE = -999
DECO = {"driver_hook": driver_hook, "monitor_hook": monitor_hook, "agent_hook": agent_hook}
PORT = {"DriverPort": DriverPort, "MonitorPort": MonitorPort, "AgentPort": AgentPort}


class Sub(Bundle):
    x = Signal()


def run_program(prog):
    rec = common.new_recorder()
    n, via = prog["len"], prog.get("via", 0)
    box = {}

    class L(Bundle):
        pins = SignalList("io_#", n)
        clk = Signal()

    class A(Agent):
        @driver_method()
        async def d(self, i):
            rec(a="Ran", n=i) if i > 0 else box.update(ran=1)
            return i

        @monitor_method()
        async def m(self):
            return None

    class E(Env):
        def __init__(self, b):
            super().__init__()
            self.a = A(b)

    def tried(f):
        try:
            f()
            return 1
        except Exception:  # noqa: BLE001
            return 0

    def declare(o):
        k = o["kind"]
        kw = {}
        if o["path"]:
            kw[k.lower().replace("_hook", "").replace("port", "") + "_path"] = o["path"]
        if o["agent"]:
            kw["agent_name"] = o["agent"]
        if o["name"]:
            kw[("driver" if k.lower().startswith("driver") else "monitor") + "_name"] = o["name"]
        if o["agents"]:
            kw["agents"] = ["a", "b"]
        if o.get("methods"):
            kw["methods"] = ["a.d"]
        if o["prio"] != NONE:
            kw["priority"] = o["prio"]
        if o["order"]:
            kw["sche_order"] = o["order"]
        if o["max"] != NONE:
            kw["maxsize"] = o["max"]
        if k in PORT:
            return PORT[k](**kw)
        if via % 2:
            class M(Model):
                @DECO[k](**kw)
                def d(self, *args):
                    pass
        else:
            @DECO[k](**kw)
            def d(self, *args):
                pass

    async def work(i):
        rec(a="Ran", n=i)
        return i

    async def execute(o, env):
        ok, ex = 1, None
        rec(a="Open", exit=o["exit"])
        try:
            async with Executor(exit=None if o["exit"] == "NoneType" else o["exit"]) as ex:
                for x in o["adds"]:
                    coro = (env.a.d if x["drv"] else work)(x["n"])
                    kw = {}
                    if x["prio"] != NONE:
                        kw["priority"] = x["prio"]
                    if x["order"]:
                        kw["sche_order"] = x["order"]
                    if x["g"]:
                        kw["sche_group"] = x["g"]
                    y = tried(lambda: ex(coro, **kw))
                    if not y:
                        coro.close()
                    rec(a="Add", n=x["n"], g=x["g"] or ("a.d" if x["drv"] else "work"), drv=x["drv"], prio=x["prio"],
                        order=x["order"], ok=y)
            if o["exit"] in ("any", "none") or via % 2:
                await ex.wait_all()
        except Exception:  # noqa: BLE001
            ok = 0
        res = [[g, v if isinstance(v, list) else [v]] for g, v in ex.get_results().items()] if ok and ex else []
        rec(a="Close", ok=ok, res=res)

    async def call(o, env):
        """A call of the driver while a model with such a hook is attached."""
        box.update(ran=0, hooks=0)

        def plain(self, *args):
            box["hooks"] = 1

        async def coro(self, *args):
            box["hooks"] = 1

        f = coro if o["coro"] else plain
        if o["kind"] == "driver":
            class M(Model):
                h = driver_hook("a.d")(f)
        else:
            class M(Model):
                h = agent_hook(agents=["a"])(f)
        ms = [M()]

        class Other(Model):
            @agent_hook("a")
            def any(self, name, args):
                pass
        for k in range(o["others"]):
            ms.insert(k % 2 + len(ms) - 1, Other())
        for m in ms:
            env.attach(m)
        ok = 1
        try:
            await env.a.d(0)
        except Exception:  # noqa: BLE001
            ok = 0
        for m in ms:
            env.unattach(m)
        rec(a="Call", kind=o["kind"], coro=o["coro"], ok=ok, ran=box["ran"], hooks=box["hooks"])

    async def body():
        names = [f"io_{i}" for i in range(n)] + ["clk"]
        dut = DUT(names + ["x"])
        toffee.start_clock(dut)
        b = L().bind(dut)
        env = E(b)
        grp = CovGroup("g")
        watch = dut.x

        def bins(k):
            f = lambda x: x.value == 1  # noqa: E731
            return {"one": f if via % 2 else CovEq(1), "dict": {"u": f, "v": CovEq(2)}, "list": {"u": [f, CovEq(1)], "w": f},
                    "value": 5, "dictbad": {"u": f, "v": 3}, "listbad": {"u": f, "w": [f, "x"]}}[k]

        for o in prog["ops"]:
            k = o["k"]
            if k == "decl":
                rec(a="Decl", **{x: o[x] for x in o if x != "k"}, ok=tried(lambda: declare(o)))
            elif k == "exec":
                await execute(o, env)
            elif k == "point":
                rec(a="Point", name=o["name"], bins=o["bins"],
                    ok=tried(lambda: (grp.add_watch_point if via < 2 else grp.add_cover_point)(watch, bins(o["bins"]), name=o["name"])))
            elif k == "ask":
                f = grp.is_point_covered if via % 2 else grp.cover_point
                rec(a="Ask", name=o["name"], ok=tried(lambda: f(o["name"])))
            elif k == "drop":
                rec(a="Drop", name=o["name"], ok=tried(lambda: grp.del_point(o["name"])))
            elif k == "reset":
                rec(a="Reset", name=o["name"], ok=tried(lambda: grp.reset_point(o["name"])))
            elif k == "list":
                f = "pin_#" if o["fmt"] else "pin_"
                g = (lambda: SignalList(f, o["n"])) if o["of"] == "S" else (lambda: BundleList(Sub, f, o["n"]))
                rec(a="List", n=o["n"], fmt=o["fmt"], ok=tried(g))
            elif k == "assign":
                f = (lambda: b.assign({"pins": o["vals"]})) if o.get("via") else (lambda: b.pins.assign(o["vals"]))
                ok = tried(f)
                rec(a="Assign", vals=o["vals"], ok=ok, pins=[getattr(dut, x).value for x in names[:n]])
            elif k == "delay":
                rec(a="Delay", n=o["n"], ok=tried(lambda: Delayer(dut.x, o["n"])))
            elif k == "attach":
                m = Model() if o["model"] else [E(b), b, 5, None, Model][o["what"] % 5]
                ok = tried(lambda: env.attach(m))
                rec(a="Attach", model=o["model"], ok=ok)
                if ok and o["model"]:
                    env.unattach(m)
            elif k == "call":
                await call(o, env)
            if k in ("point", "ask", "drop", "reset"):
                rec(a="Points", l=list(grp.cover_points()))
        await b.step(2)
        return 7

    v = 1
    try:
        v = 0 if toffee.run(body) == 7 else 2
    except BaseException:  # noqa: BLE001
        v = 3
    rec(a="End", v=v)
    return {"prog": {"len": n}, "ev": rec.ev}


def run(sc):
    return [run_program(p) for p in sc["runs"]]


def partial(sc, ev, kind):
    return {"prog": {"len": sc["runs"][0]["len"]}, "ev": [{"a": kind}]}
