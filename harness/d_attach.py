"""Recorder for the Attach specification."""
import common
from common import DUT, toffee
from toffee import (Agent, AgentPort, Bundle, DriverPort, Env, Model, MonitorPort, Signal, agent_hook, driver_hook,
                    driver_method, monitor_hook, monitor_method)


class B(Bundle):
    a = Signal()


def agent_class(methods, fire):
    body = {}
    for q in methods:
        path = q["agent"] + "." + q["name"]
        if q["kind"] == "driver":
            async def f(self, x, p=path):
                return None
            f.__name__ = q["name"]
            # the signature that models see has one argument
            ns = {}
            exec("async def f(self, x): return None", ns)
            f = ns["f"]
            f.__name__ = q["name"]
            body[q["name"]] = driver_method()(f)
        else:
            async def g(self, p=path):
                return fire.pop((id(self), p), None)
            g.__name__ = q["name"]
            body[q["name"]] = monitor_method()(g)
    return type("A", (Agent,), body)


def env_class(agents, methods, fire, inherit):
    cls = {a: agent_class([q for q in methods if q["agent"] == a], fire) for a in agents}

    def init(self, dut):
        Env.__init__(self)
        for a in agents[:len(agents) // 2 if inherit else None]:
            setattr(self, a, cls[a](B().bind(dut)))
    base = type("E", (Env,), {"__init__": init})
    if not inherit:
        return base

    def init2(self, dut):
        base.__init__(self, dut)
        for a in agents[len(agents) // 2:]:
            setattr(self, a, cls[a](B().bind(dut)))
    return type("E2", (base,), {"__init__": init2})


def kwargs(d, ports=False):
    """The arguments of a declaration, as few as say it."""
    if d["k"] in ("ah", "ap"):
        kw = {}
        if d["agents"]:
            kw["agents"] = list(d["agents"])
        if d["methods"]:
            kw["methods"] = list(d["methods"])
        return ((d["agent"],) if d["agent"] else ()), kw
    if d["path"]:
        return (d["path"],), {}
    kw = {}
    if d["agent"]:
        kw["agent_name"] = d["agent"]
    if d["member"]:
        kw["driver_name" if d["k"] in ("dh", "dp") else "monitor_name"] = d["member"]
    return (), kw


def model_class(decls, heard, via):
    """Hooks tell of themselves; ports are emptied later."""
    body, decos = {}, {}
    for k, d in enumerate(decls, 1):
        a, kw = kwargs(d)
        if d["k"] == "dh":
            def f(self, x, k=k):
                heard.append((self.no, k, "", x))
        elif d["k"] == "mh":
            def f(self, x, k=k):
                heard.append((self.no, k, "", x))
        elif d["k"] == "ah":
            def f(self, path, args, k=k):
                heard.append((self.no, k, path, args["x"] if isinstance(args, dict) else args))
        else:
            continue
        f.__name__ = d["fn"]
        deco = {"dh": driver_hook, "mh": monitor_hook, "ah": agent_hook}[d["k"]]
        if d["k"] != "mh" and (via + k) % 3 == 0:
            kw = dict(kw, sche_order="dut_first")
        dec = deco(*a, **kw)
        if via % 4 == 1:        # one decorator for several hooks
            dec = decos.setdefault(repr((d["k"], a, kw)), dec)
        body[d["fn"]] = dec(f)

    def init(self, no):
        Model.__init__(self)
        self.no = no
        self.ports = []
        for k, d in enumerate(decls, 1):
            if d["k"] in ("dp", "mp", "ap"):
                a, kw = kwargs(d)
                p = {"dp": DriverPort, "mp": MonitorPort, "ap": AgentPort}[d["k"]](*a, maxsize=-1, **kw) \
                    if d["k"] != "ap" or d["agent"] == "" else AgentPort(d["agent"], -1, **kw)
                setattr(self, d["fn"], p)
                self.ports.append((k, p))
    body["__init__"] = init
    if via % 5 == 2 and body:       # a deep hierarchy, with a mixin
        names = sorted(set(body) - {"__init__"})
        part = [{n: body[n] for n in names[i::3]} for i in range(3)]
        top = type("Top", (Model,), part[0])
        mix = type("Mix", (object,), part[1])
        mid = type("Mid", (top, mix), dict(part[2]))
        return type("M", (type("Low", (mid,), {}),), {"__init__": init})
    return type("M", (Model,), body)


class Failed(Exception):
    pass


async def go(prog, rec):
    dut = DUT(["a"])
    clock = toffee.start_clock(dut)
    fire, heard = {}, []
    via = prog["via"]
    envs = [env_class(ag, ms, fire, (via + e) % 3 == 0)(dut) for e, (ag, ms) in enumerate(zip(prog["agents"], prog["envs"]))]
    cls = [model_class(d, heard, via) for d in prog["classes"]]
    models = [cls[c - 1](m) for m, c in enumerate(prog["insts"], 1)]
    n = 0

    async def probe():
        nonlocal n
        out = []
        for e, ms in zip(envs, prog["envs"]):
            row = []
            for q in ms:
                n += 1
                heard.clear()
                ag = getattr(e, q["agent"])
                if q["kind"] == "driver":
                    await getattr(ag, q["name"])(n)
                    await ag.bundle.step()
                else:
                    fire[(id(ag), q["agent"] + "." + q["name"])] = n
                    await ag.bundle.step(3)
                    if fire:
                        raise Failed("monitor not called")
                for m in models:
                    for k, p in m.ports:
                        d = prog["classes"][prog["insts"][m.no - 1] - 1][k - 1]
                        while not p.empty():
                            v = p.get_nowait()
                            if d["k"] == "ap":
                                heard.append((m.no, k, v[0], v[1]["x"] if isinstance(v[1], dict) else v[1]))
                            else:
                                heard.append((m.no, k, "", v))
                row.append([{"m": m, "k": k, "path": str(p), "ok": int(v == n)} for m, k, p, v in heard])
            out.append(row)
        return {"heard": out, "att": [int(bool(m.is_attached())) for m in models]}

    finds, lists, names = [], [], []
    for e, ms, ags in zip(envs, prog["envs"], prog["agents"]):
        row = []
        for a in ags:
            ag = getattr(e, a)
            for x in sorted({q["name"] for q in ms} | {q["name"] + "x" for q in ms} | {"bundle", "drivers", "nothing", "get_driver_method"}):
                d, m = ag.get_driver_method(x), ag.get_monitor_method(x)
                row.append({"agent": a, "name": x, "d": int(d is not None and d == getattr(ag, x)),
                            "m": int(m is not None and m == getattr(ag, x)), "any": int(d is not None or m is not None)})
        finds.append(row)
        names.append(list(e.all_agent_names()))
        lists.append([{"agent": a, "name": f.__name__, "kind": k} for a in ags for k, g in
                      (("driver", getattr(e, a).all_driver_method()), ("monitor", getattr(e, a).all_monitor_method())) for f in g])
    rec(a="Find", finds=finds, lists=lists, names=names)
    rec(a="Check", **await probe())
    for k, o in enumerate(prog["ops"]):
        e, m = envs[o["e"] - 1], models[o["m"] - 1]
        if o["a"] == "Attach":
            try:
                if e.attach(m) is not e:
                    raise Failed("attach does not return the env")
                ok = 1
            except ValueError:
                ok = 0
            rec(ok=ok, **o, **await probe())
        else:
            if e.unattach(m) is not e:
                raise Failed("unattach does not return the env")
            rec(**o, **await probe())
    rec(a="End")


def run_program(prog):
    rec = common.new_recorder()
    toffee.run(go(prog, rec))
    return {"prog": public(prog), "ev": rec.ev}


def public(prog):
    return {k: prog[k] for k in ("envs", "agents", "classes", "insts")}


def run(sc):
    return [run_program(sc)]


def partial(sc, ev, kind):
    return {"prog": public(sc), "ev": [{"a": kind}]}
