"""Recorder for the Req specification: batches of requests on a bundle."""
import copy

import common
from common import DUT
from toffee import Bundle, Signals


ARGS = [("args", 1), None, 0, "", (), False, ["a"], 5]
TRUE, FALSE = [True, 1, "x", [0]], [False, 0, None, ""]


def run_program(prog):
    rec = common.new_recorder()
    n, nd, via = prog["pins"], prog["duts"], prog.get("via", 0)
    names = [f"p{i+1}" for i in range(n)]
    duts = []

    def on_step(k):
        def f(c):
            d = duts[k]
            d.out.xdata.value = sum(getattr(d, x).value for x in names)
            rec(a="Step", d=k + 1, duts=[[getattr(x, y).value for y in names + ["out"]] for x in duts])
            if c > 300:
                common.worker_abort("Hang")
        return f

    for k in range(nd):
        duts.append(DUT(names + ["out"], on_step=on_step(k), outs=("out",)))

    at = prog["subat"]

    def cls():
        if at >= n:
            class B(Bundle):
                signals = names + ["out"]
        else:
            class S(Bundle):
                signals = names[at:]

            class B(Bundle):
                signals = names[:at] + ["out"]
                s = S.from_prefix("") if via % 5 else S.from_dict({x: x for x in names[at:]})
        return B

    B, Out = cls(), cls()
    bundles = [(B if k % 2 == 0 else cls())().bind(duts[0]) for k in range(prog["bundles"])]
    spare = [Out().bind(d) for d in duts]
    curs = [0] * len(bundles)
    base = [0]

    def vec(x):
        return [x[y] if y in x else x["s"][y] for y in names + ["out"]]

    def look(b):
        return [(getattr(b, y) if y == "out" or int(y[1:]) <= at else getattr(b.s, y)).value for y in names + ["out"]]

    for op in prog["ops"]:
        if op["a"] == "Step":
            duts[op["d"] - 1].Step(1)
        elif op["a"] == "Bind":
            curs[op["b"] - 1] = op["d"] - 1
            bundles[op["b"] - 1].bind(duts[op["d"] - 1])
            rec(a="Bind", b=op["b"], d=op["d"])
        else:
            b, cur = bundles[op["b"] - 1], curs[op["b"] - 1]
            base[0] = duts[cur].cycles
            reqs, objs = op["reqs"], {}
            batch = []
            for i, q in enumerate(reqs):
                # the same request given again is the same object
                key = repr(q) if via % 3 == 0 and q["nf"] == 0 and q["k"][:4] != "call" else i
                if key in objs:
                    batch.append(objs[key])
                    continue

                # with arguments of any kind, or without
                arg = ARGS[(via + i) % len(ARGS)] if via % 2 else None

                def cond(cycle, bundle, args, q=q, b=b, arg=arg, i=i):
                    s = cycle - base[0]
                    ok = args is arg and bundle is b and (s > len(q["cond"]) or q["cond"][s - 1])
                    return (TRUE if ok else FALSE)[(via + i + s) % 4]

                def fn(j, i=i):
                    def f(cycle, bundle):
                        rec(a="Func", i=i + 1, j=j + 1, cyc=cycle, vals=look(bundle))
                        return (i + 1) * 10 + j + 1
                    return f

                d = {f"p{x['p']}": x["v"] for x in q["as"] if x["p"] <= at}
                sub = {f"p{x['p']}": x["v"] for x in q["as"] if x["p"] > at}
                if q["ss"] >= 0:
                    sub["*"] = q["ss"]
                if sub:
                    d["s"] = sub
                if q["star"] >= 0:
                    d["*"] = q["star"]
                if q["cond"]:
                    d["__condition_func__"] = cond
                    if via % 2:
                        d["__condition_args__"] = arg
                if q["nf"]:
                    fs = [fn(j) for j in range(q["nf"])]
                    if via % 4 == 2:        # one function, several times
                        fs = [lambda *a, it=iter(fs): next(it)(*a)] * q["nf"]
                    d["__funcs__"] = fs[0] if len(fs) == 1 else fs
                if q["ret"] == 1:
                    d["__return_bundles__"] = b if via % 2 else [spare[cur]]
                elif q["ret"] > 1:
                    d["__return_bundles__"] = [b if j % 2 else spare[cur] for j in range(q["ret"])]

                def made(c, s, d=d, i=i, q=q):
                    rec(a="Made", i=i + 1, cyc=c)
                    return None if q["k"] == "callnone" else dict(d) if via % 2 else d

                x = {"dict": d, "call": made, "none": None, "callnone": made}[q["k"]]
                objs[key] = x
                batch.append(x)
            rec(a="Batch", b=op["b"], reqs=reqs)
            before = [copy.copy(x) for x in batch]
            single = len(batch) == 1 and via % 2
            ret = b.process_requests(batch[0] if single else batch)
            res = []
            k = 0
            want = [q for q in reqs if q["k"] == "dict" and q["ret"]]
            for r in ret:
                q = want[k] if k < len(want) else {"ret": 0, "nf": 0}
                k += 1
                fr = r["__funcs_return__"]
                fr = [] if fr is None else fr if isinstance(fr, list) and q["nf"] > 1 else [fr]
                # of one bundle or function that was not given in a list, not a list
                data = r["data"] if isinstance(r["data"], list) and (q["ret"] > 1 or via % 2 == 0) else [r["data"]]
                res.append({"data": [vec(x) for x in data], "cycle": r["cycle"], "fr": fr})
            rec(a="Ret", res=res)
            rec(a="Same", ok=int(all(x == y if isinstance(x, dict) else x is y for x, y in zip(before, batch))))
    rec(a="End")
    return {"prog": {"pins": n, "duts": nd, "bundles": len(bundles), "subat": at}, "ev": rec.ev}


def run(sc):
    return [run_program(sc)]


def partial(sc, ev, kind):
    return {"prog": {k: sc[k] for k in ("pins", "duts", "bundles", "subat")}, "ev": [{"a": kind}]}
