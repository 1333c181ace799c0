"""Recorder for the Sync specification: agents, models and executors built from a
program, run with the library, everything observable recorded."""
import asyncio
import gc
import logging

import common
from common import DUT, toffee
from toffee import (Agent, AgentPort, Bundle, DriverPort, Env, Executor, Model, MonitorPort,
                    Signal, agent_hook, driver_hook, driver_method, monitor_hook, monitor_method)

from toffee.logger import get_logger


class Boom(BaseException):
    pass


BOOMS = [Boom] + [type("Boom" + k.__name__, (Boom, k), {}) for k in
                  (asyncio.TimeoutError, RuntimeError, ValueError, AttributeError, KeyError, Exception)]
GROUPS = {"": "", "empty": "", "g1": 1, "g2": "1", "g3": (1, 2), "g4": 0}


class B(Bundle):
    a = Signal()


class ErrCount(logging.Handler):
    def __init__(self):
        super().__init__(level=logging.ERROR)
        self.n = 0

    def emit(self, record):
        self.n += 1


class Odd:
    """A value that cannot be compared, like an array; it is no None."""

    def __eq__(self, other):
        return self

    __ne__ = __lt__ = __eq__
    __hash__ = None

    def __bool__(self):
        raise ValueError("the truth value is ambiguous")

    __len__ = None

    def __repr__(self):
        return "Odd()"


def lit(v):
    return eval(v, {"Odd": Odd})  # literals of the program only


def flat(args):
    """Arguments by name, those collected in a tuple or dictionary one by one."""
    l = []
    for k, v in args.items():
        if isinstance(v, tuple) and k == "rest":
            l += [[f"{k}{i}", x] for i, x in enumerate(v)]
        elif isinstance(v, dict) and k == "opts":
            l += [[f"{k}.{n}", x] for n, x in v.items()]
        else:
            l.append([k, v])
    return l


def texts(pairs):
    return [[k, repr(v)] for k, v in pairs]


class Val:
    """A value that tells when it is compared."""

    def __init__(self, run, c, h, v):
        self.run, self.c, self.h, self.v = run, c, h, v

    def __eq__(self, other):
        if isinstance(other, Val):
            d, m = (self, other) if self.h == 0 else (other, self)
            self.run.rec(a="Cmp", c=d.c, h=m.h, k=m.c)
            return lit(self.v) == lit(other.v)
        if other is None:
            self.run.rec(a="Cmp", c=0, h=self.h, k=self.c)
        return NotImplemented

    __hash__ = None

    def __bool__(self):
        return bool(lit(self.v))

    def __repr__(self):
        return self.v


class Run:
    def __init__(self, prog, maxcycles=60):
        self.P = prog
        self.rec = common.new_recorder()
        self.maxcycles = maxcycles
        self.zero = {}

    # ------------------------------------------------------------- values
    def dutval(self, c):
        v = self.P["calls"][c - 1]["ret"]
        if v == "None" or self.P["opaque"]:
            return lit(v)
        return Val(self, c, 0, v)

    def hookval(self, h, c):
        v = self.P["hooks"][h - 1]["rets"][c - 1]
        if v == "None" or self.P["opaque"]:
            return lit(v)
        return Val(self, c, h, v)

    def num(self, x):
        """The number of a call, 0 if the argument is none."""
        return x if type(x) is int and 0 < x <= len(self.P["calls"]) else 0

    def boom(self, where):
        """An exception; its type does not matter."""
        return BOOMS[self.P.get("boom", 0)](where)

    # ------------------------------------------------------------- agents
    def driver(self, name, sig):
        async def common_(agent, pairs, x):
            path = f"{agent.nm}.{name}"
            c = x if x is not None else self.zero.get(path, 0)
            k = self.P["calls"][c - 1]
            self.rec(a="Dut", c=c, kw=texts(pairs))
            if k.get("nap"):
                await toffee.sleep(0)
            if k["dur"] > 0:
                await agent.bun.step(k["dur"])
            if k.get("raises"):
                self.rec(a="Raise", why="driver")
                raise self.boom("driver")
            self.rec(a="DutEnd", c=c)
            return self.dutval(c)

        src = {0: "async def f(self): return await _c(self, [], None)",
               1: "async def f(self, x): return await _c(self, [['x', x]], x)",
               2: "async def f(self, x, y=7): return await _c(self, [['x', x], ['y', y]], x)",
               3: "async def f(self, x, y=7, *, z=9): return await _c(self, [['x', x], ['y', y], ['z', z]], x)",
               # names that the library uses itself, and another one for the object
               4: "async def f(this, x, agent=9): return await _c(this, [['x', x], ['agent', agent]], x)",
               5: "async def f(self, x, *rest): return await _c(self, _f({'x': x, 'rest': rest}), x)",
               6: "async def f(self, x, **opts): return await _c(self, _f({'x': x, 'opts': opts}), x)",
               7: "async def f(self, x, y=7, *rest, z=9, **opts): return await _c(self, _f({'x': x, 'y': y, 'rest': rest, 'z': z, 'opts': opts}), x)",
               8: "async def f(self, x): return await _c(self, [['x', x]], x)"}[sig]
        ns = {"_c": common_, "_f": flat}
        exec(src, ns)
        f = ns["f"]
        f.__name__, f.__qualname__ = name, "Some." + name
        return driver_method()(f)

    def monitor(self, name):
        state = {}

        async def f(self_):
            m = self.monnum[f"{self_.nm}.{name}"]
            mon = self.P["mons"][m - 1]
            self.rec(a="MonCall", m=m)
            k = state.get(m, 0)
            state[m] = k + 1
            w, v, late = (mon["script"][k] + [0])[:3] if k < len(mon["script"]) else (0, "None", 0)
            for _ in range(w):
                await self_.bun.step()
            if late:             # later in the cycle
                for _ in range(late):
                    await (toffee.sleep(0) if late < 4 else asyncio.sleep(0))
            if v == "raise":
                self.rec(a="Raise", why="monitor")
                raise self.boom("monitor")
            self.rec(a="MonRet", m=m, v=v)
            return lit(v)

        f.__name__, f.__qualname__ = name, "Some." + name
        return monitor_method()(f)

    def stale(self, name, deco):
        """A method that a subclass overrides."""
        async def f(self_, x=0, y=0):
            self.rec(a="Stale")
        f.__name__, f.__qualname__ = name, "Some." + name
        return deco()(f)

    @staticmethod
    def extending(name, sig, top):
        """A method that extends the one it overrides; sig: of a driver method, None: a monitor's."""
        src = {None: "async def f(self): return await _b(self)()",
               0: "async def f(self): return await _b(self)()",
               1: "async def f(self, x): return await _b(self)(x)",
               2: "async def f(self, x, y=7): return await _b(self)(x, y=y)",
               3: "async def f(self, x, y=7, *, z=9): return await _b(self)(x, y, z=z)",
               4: "async def f(this, x, agent=9): return await _b(this)(x, agent=agent)",
               5: "async def f(self, x, *rest): return await _b(self)(x, *rest)",
               6: "async def f(self, x, **opts): return await _b(self)(x, **opts)",
               7: "async def f(self, x, y=7, *rest, z=9, **opts): return await _b(self)(x, y, *rest, z=z, **opts)",
               8: "async def f(self, x): return await _b(self)(x)"}[sig]
        env = {"_b": lambda self_: getattr(super(top[0], self_), name)}
        exec(src, env)
        f = env["f"]
        f.__name__, f.__qualname__ = name, "Some." + name
        return (monitor_method if sig is None else driver_method)()(f)

    def inherit(self, name, bases, ns, overridden, sigs={}):
        """A class with ns, with as many levels as the program asks for."""
        k = self.P.get("inherit", 0)
        if not k:
            return type(name, bases, ns)
        if k == 3 and sigs:
            base, top = type(name + "Base", bases, ns), []
            top.append(type(name, (base,), {n: self.extending(n, sigs[n], top) for n in sigs}))
            return top[0]
        names = sorted(ns)
        low = {n: ns[n] for n in names[:len(names) // 2] if not n.startswith("__")}
        top = {n: v for n, v in ns.items() if n not in low}
        low.update({n: v for n, v in overridden.items() if k == 2 and n in top})
        return type(name, (type(name + "Base", bases, low),), top)

    def make_env(self):
        P = self.P
        self.monnum = {m["path"]: i + 1 for i, m in enumerate(P["mons"])}
        cls = {}
        for a in P["agents"]:
            same = next((b for b in P["agents"] if b.get("cls", b["name"]) == a.get("cls", a["name"])), a)
            if same is not a:            # another agent of the same class
                cls[a["name"]] = cls[same["name"]]
                continue
            ns, old, sigs = {}, {}, {}
            for d in a["drivers"]:
                ns[d["name"]] = self.driver(d["name"], d["sig"])
                old[d["name"]] = self.stale(d["name"], driver_method)
                sigs[d["name"]] = d["sig"]
            for mon in P["mons"]:
                an, mn = mon["path"].split(".")
                if an == a["name"]:
                    ns[mn] = self.monitor(mn)
                    old[mn] = self.stale(mn, monitor_method)
                    sigs[mn] = None
            cls[a["name"]] = self.inherit("A_" + a["name"], (Agent,), ns, old, sigs)
        dut = self.dut
        run = self

        class E(Env):
            def __init__(self):
                super().__init__()
                one = B().bind(dut)
                for k, n in enumerate(cls):
                    b = one if P.get("sharedb") else B().bind(dut)
                    setattr(self, n, cls[n](b.step if P.get("stepfn") else b))
                    getattr(self, n).bun = b
                    getattr(self, n).nm = n

        self.env = (type("E2", (E,), {}) if P.get("inherit") else E)()
        self.models = []
        self.portobj = {}
        classes = []
        for mi, md in enumerate(P["models"]):
            classes.append(classes[md["twin"] - 1] if "twin" in md else self.model_class(mi + 1, md))
            self.making = mi + 1
            model = classes[mi]()
            model.vnum = mi + 1
            self.models.append(model)
            self.env.attach(model)
        self.rec(a="Env")

    def twin(self, what, n, m):
        """The number that hook or port n has in model m."""
        l = self.P[what]
        if l[n - 1]["model"] == m:
            return n
        return next(i + 1 for i, x in enumerate(l) if x.get("twin") == n and x["model"] == m)

    def hook(self, h0):
        hk = self.P["hooks"][h0 - 1]
        P = self.P
        mons = {m["path"]: i + 1 for i, m in enumerate(P["mons"])}

        def after(h, c):
            for e in hk.get("wakes", []):
                self.set(e)
            if c in P["hooks"][h - 1].get("raises", []):
                self.rec(a="Raise", why="hook")
                raise self.boom("hook")

        if hk["kind"] == "driver":
            def f(self_, *args, **kw):
                h = self.twin("hooks", h0, self_.vnum)
                x = args[0] if args else kw.get("x")
                c = self.num(x)
                self.rec(a="Hook", h=h, c=c, m=0, path="", args=[repr(a) for a in args], kw=texts(kw.items()), v="")
                c = c or self.zero.get(hk["paths"][0], 0)
                after(h, c)
                return self.hookval(h, c)
            deco = driver_hook
        elif hk["kind"] == "agent":
            def f(self_, name, args):
                h = self.twin("hooks", h0, self_.vnum)
                if name in mons:
                    self.rec(a="Hook", h=h, c=0, m=mons[name], path=name, args=[], kw=[], v=repr(args))
                    after(h, -1)
                    return lit(P["hooks"][h - 1].get("mret", "None"))
                c = self.num(args.get("x", 0))
                self.rec(a="Hook", h=h, c=c, m=0, path=name, args=[], kw=texts(flat(args)), v="")
                self.spoil(args)
                c = c or self.zero.get(name, 0)
                after(h, c)
                return self.hookval(h, c)
            deco = agent_hook
        else:
            def f(self_, v):
                h = self.twin("hooks", h0, self_.vnum)
                self.rec(a="Hook", h=h, c=0, m=mons[hk["paths"][0]], path="", args=[], kw=[], v=repr(v))
                after(h, -1)
                return lit(P["hooks"][h - 1].get("mret", "None"))
            deco = monitor_hook
        f.__name__, f.__qualname__ = hk["name"], "Some." + hk["name"]
        kw = dict(hk["deco"])
        kw["priority"] = hk["prio"]
        if hk["kind"] != "monitor":
            kw["sche_order"] = hk["order"]
        if hk.get("defaults"):
            kw.pop("priority")
            kw.pop("sche_order", None)
        return deco(**kw)(f)

    def model_class(self, mi, md):
        ns = {}
        for h, hk in enumerate(self.P["hooks"]):
            if hk["model"] == mi:
                ns[hk["name"]] = self.hook(h + 1)
        run = self
        ports = [(p + 1, x) for p, x in enumerate(self.P["ports"]) if x["kind"] != "queue" and x["model"] == mi]

        def init(self_):
            Model.__init__(self_)
            for p, x in ports:
                p = self.twin("ports", p, run.making)
                k = {"driver": DriverPort, "agent": AgentPort, "monitor": MonitorPort}[x["kind"]]
                o = k(**({} if x.get("dmax") else {"maxsize": x["max"]}), **x["deco"])
                setattr(self_, x["name"], o)
                run.portobj[p] = o

        ns["__init__"] = init
        if md.get("main"):
            async def main(self_):
                for _ in range(md["main"] - 1):
                    await run.dut.event.wait()
                run.rec(a="Raise", why="main")
                raise run.boom("main")
            ns["main"] = main
        return self.inherit(f"M{mi}", (Model,), ns, {})

    # ------------------------------------------------------------- running
    def call(self, c):
        P = self.P
        k = P["calls"][c - 1]
        if k["path"] == "":
            async def body(c):
                self.rec(a="Dut", c=c, kw=[])
                if k["dur"] > 0:
                    await toffee.ClockCycles(self.dut, k["dur"])
                if k.get("raises"):
                    self.rec(a="Raise", why="call")
                    raise self.boom("call")
                self.rec(a="DutEnd", c=c)
                return self.dutval(c)

            # coroutines that are no driver's: some of them have a parameter named agent
            if not k["wagent"]:
                async def work(c):
                    return await body(c)
                args = (c,)
            else:
                async def work(agent, c):
                    return await body(c)
                args = ({"obj": 3, "agent": getattr(self.env, P["agents"][0]["name"])}[k["wagent"]], c)
            work.__name__, work.__qualname__ = k["wname"], "Some." + k["wname"]
            return work(*args)
        an, dn = k["path"].split(".")
        if k["sig"] in (0, 8):
            self.zero[k["path"]] = c
        return getattr(getattr(self.env, an), dn)(*[lit(v) for v in k["args"]], **{n: lit(v) for n, v in k["kw"]})

    def set(self, e):
        self.rec(a="SetEv", e=e)
        self.events[e].set()
        self.events[e].clear()

    async def op(self, o, t):
        k = o["k"]
        P = self.P
        if k == "call":
            c = o["n"]
            coro = self.call(c)
            self.rec(a="Call", c=c)
            r = await coro
            self.rec(a="Ret", c=c, v=(repr(r) if P["opaque"] or r is None else
                                      (r.v if isinstance(r, Val) and r.c == c and r.h == 0 else "wrong")))
        elif k == "clk":
            for _ in range(o["n"]):
                await self.dut.event.wait()
        elif k == "sleep":
            await toffee.sleep(0)
        elif k == "wait":
            self.rec(a="WaitEv", e=o["n"], t=t)
            await self.events[o["n"]].wait()
            self.rec(a="Woke", e=o["n"], t=t)
        elif k == "exec":
            x = o["n"]
            X = P["execs"][x - 1]
            try:
                async with Executor(exit=X["exit"]) as ex:
                    self.exs[x] = ex
                    for a in X["adds"]:
                        kk = P["calls"][a["c"] - 1]
                        kw = {}
                        if kk["prio"] >= 0:
                            kw["priority"] = kk["prio"]
                        if kk["order"]:
                            kw["sche_order"] = "parallel" if kk.get("parallel") and kk["order"] == "model_first" else kk["order"]
                        if a["g"]:
                            kw["sche_group"] = GROUPS[a["g"]] if P.get("gkeys") or a["g"] == "empty" else a["g"]
                        ex(self.call(a["c"]), **kw)
                    self.rec(a="Exec", x=x)
            except Boom:
                raise
            self.rec(a="ExecEnd", x=x)
            if X["exit"] == "all":
                self.res(x)
        elif k == "waitall":
            x = o["n"]
            self.rec(a="WaitAll", x=x)
            await self.exs[x].wait_all()
            self.rec(a="WaitEnd", x=x)
            self.res(x)
        elif k == "on":
            p = o["n"]
            an, mn = P["ports"][p - 1]["paths"][0].split(".")
            x = P["ports"][p - 1]
            getattr(self.env, an).start_monitor(mn, **({} if x.get("dmax") else {"maxsize": x["max"]}))
            self.rec(a="On", p=p)
        elif k == "get":
            await self.get(o["n"], o.get("r", 1))
        elif k == "size":
            self.size(o["n"])
        elif k == "set":
            self.set(o["n"])

    def res(self, x):
        r = []
        adds = self.P["execs"][x - 1]["adds"]
        names = [a["g"] or self.P["calls"][a["c"] - 1]["path"] or self.P["calls"][a["c"] - 1]["wname"] for a in adds]
        back = {repr(v): k for k, v in GROUPS.items()}
        for g, v in self.exs[x].get_results().items():
            if self.P.get("gkeys"):
                g = back.get(repr(g), g)
            # the only result of a group may come without a list
            only = [a["c"] for a, n in zip(adds, names) if n == (g or "empty")]
            if len(only) == 1 and (not isinstance(v, list) or len(v) != 1 or repr(v) == self.P["calls"][only[0] - 1]["ret"]):
                v = [v]
            elif not isinstance(v, list):
                v = [v]
            r.append([g or "empty", [(e.v if isinstance(e, Val) else repr(e)) for e in v]])
        self.rec(a="Res", x=x, r=r)

    def norm(self, p, v):
        kind = self.P["ports"][p - 1]["kind"]
        mons = {m["path"] for m in self.P["mons"]}
        if kind == "driver":
            if isinstance(v, dict):
                return {"path": "", "pairs": texts(flat(v)), "v": ""}
            return {"path": "", "pairs": [["", repr(v)]], "v": ""}
        if kind == "agent":
            path, d = v
            if path in mons:
                return {"path": path, "pairs": [], "v": repr(d)}
            return {"path": path, "pairs": texts(flat(d)), "v": ""}
        return {"path": "", "pairs": [], "v": repr(v)}

    async def get(self, p, r):
        x = self.P["ports"][p - 1]
        self.rec(a="Wait", p=p, r=r)
        if x["kind"] == "queue":
            an, mn = x["paths"][0].split(".")
            v = await getattr(getattr(self.env, an), mn)()
        else:
            o = self.portobj[p]
            v = await (o() if r % 2 else o.get())
        self.rec(a="Get", p=p, r=r, v=self.norm(p, v))
        if x["kind"] == "driver":
            self.spoil(v)
        elif x["kind"] == "agent" and v[0] not in {m["path"] for m in self.P["mons"]}:
            self.spoil(v[1])

    def spoil(self, v):
        """Changes what a reader or hook has been given, which is its own copy."""
        if self.P.get("mutate") and isinstance(v, dict):
            v["x"] = -99
            v["more"] = 1

    def size(self, p):
        x = self.P["ports"][p - 1]
        if x["kind"] == "queue":
            an, mn = x["paths"][0].split(".")
            n = getattr(self.env, an).monitor_size(mn)
        else:
            n = self.portobj[p].qsize()
        self.rec(a="Size", p=p, n=n)

    async def drain(self):
        for p, x in enumerate(self.P["ports"]):
            if not x.get("drain"):
                continue
            p += 1
            l = []
            if x["kind"] == "queue":
                an, mn = x["paths"][0].split(".")
                ag = getattr(self.env, an)
                while ag.monitor_size(mn):
                    l.append(self.norm(p, await getattr(ag, mn)()))
            else:
                o = self.portobj[p]
                while o.qsize():
                    l.append(self.norm(p, await o.get()))
            self.rec(a="Drain", p=p, l=l)

    async def task(self, ops, t):
        for o in ops:
            await self.op(o, t)

    async def body(self):
        P = self.P
        if not P.get("envh"):
            self.make_env()
        if P.get("late") == 1:
            toffee.start_clock(self.dut)
        ts = [toffee.create_task(self.task(t, i + 2)) for i, t in enumerate(P["tasks"][1:])]
        if P.get("late", 0) > 1:
            for _ in range(P["late"] - 2):
                await asyncio.sleep(0)
            toffee.start_clock(self.dut)
        try:
            await self.task(P["tasks"][0], 1)
        except Boom as e:
            self.exc = e
            raise
        if any(x.get("drain") for x in P["ports"]):
            await self.drain()
        if P.get("raise"):
            self.exc = self.boom("body")
            self.rec(a="Main", v=2)
            raise self.exc
        self.rec(a="Main", v=0)
        return self.token

    def run(self):
        P = self.P
        rec = self.rec
        self.exs, self.exc, self.token = {}, None, [object(), None, 0, "", False, [], object()][P.get("boom", 0)]
        err = ErrCount()

        def setup():
            def on_step(_):
                rec(a="Step")
                if self.dut.cycles > self.maxcycles:
                    rec(a="Cut")
                    rec.closed = True
                    raise common.MaxCycles()
            self.dut = DUT(["a"], on_step=on_step)
            self.events = {e: toffee.Event() for e in range(1, 4)}
            if not P.get("late"):
                toffee.start_clock(self.dut)

        def env_handle():
            setup()
            self.make_env()
            return self.env

        async def plain():
            setup()
            return await self.body()

        async def test(env):
            return await self.body()

        log = get_logger()
        level = log.level
        log.setLevel(logging.ERROR)
        log.addHandler(err)
        v, why = 3, ""
        try:
            r = common.launch(test, env_handle, P.get("boom", 0)) if P.get("envh") else common.launch(plain, via=P.get("boom", 0))
            v = 0 if r is self.token else 8
        except BaseException as e:  # noqa: BLE001
            why = repr(e)[:300]
            v = 2 if self.exc is not None and e is self.exc else 3
        log.removeHandler(err)
        log.setLevel(level)
        rec(a="End", v=v, errs=err.n)
        return {"prog": P, "ev": rec.ev, "why": why}


def run(sc):
    out = []
    for p in sc["runs"]:
        r = Run(p)
        out.append(r.run())
        gc.collect()
    return out


def partial(sc, ev, kind):
    return {"prog": sc["runs"][0], "ev": [{"a": kind}]}
