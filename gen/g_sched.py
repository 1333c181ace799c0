"""Programs for the Sched specification."""
import random


def op(k, n=0, l=(), m=0):
    return {"k": k, "n": n, "l": list(l), "m": m}


def rand_prog(r):
    nt = r.randint(2, 6)
    nev, nq = r.randint(1, 3), r.randint(1, 2)
    tasks = [{"ops": [], "fin": 0, "fs": 0} for _ in range(nt)]
    simple = r.random()
    for t in range(nt):
        for _ in range(r.randint(1, 6 if t else 7)):
            x = r.random()
            if x < 0.22:
                o = op("clk", r.choice([0, 1, 1, 1, 2, 3]), m=r.randint(0, 5))
            elif x < 0.34:
                o = op("sleep")
            elif x < 0.48:
                o = op("set", r.randint(1, nev))
            elif x < 0.62:
                o = op("wait", r.randint(1, nev))
            elif x < 0.68:
                o = op("clear", r.randint(1, nev))
            elif x < 0.82:
                o = op("put", r.randint(1, nq))
            elif x < 0.94 and (t or simple < 0.5):
                o = op("get", r.randint(1, nq))
            else:
                o = op("sleep")
            tasks[t]["ops"].append(o)
        if t and r.random() < 0.3:
            tasks[t]["fin"] = r.randint(1, nev)
            tasks[t]["fs"] = r.randint(0, 2)
    # who starts whom
    for t in range(1, nt):
        if r.random() < 0.06:
            continue
        p = 0 if r.random() < 0.6 else r.randint(0, t - 1)
        ops = tasks[p]["ops"]
        i = r.randint(0, min(2, len(ops)))
        if r.random() < 0.2 and t + 1 < nt:
            ops.insert(i, op("gather", l=[t + 1]))
        else:
            ops.insert(i, op("spawn", t + 1))
            if r.random() < 0.3:
                ops.insert(r.randint(i + 1, len(ops)), op("join", t + 1))
            if r.random() < 0.35:
                # only tasks that are not waiting in join or gather themselves
                if not any(o["k"] in ("join", "gather") for o in tasks[t]["ops"]):
                    ops.insert(r.randint(i + 1, len(ops)), op("cancel", t + 1))
    # widen some gathers
    for t in range(nt):
        for o in tasks[t]["ops"]:
            while o["k"] == "gather" and r.random() < 0.6:
                tasks.append({"ops": [op("clk", r.randint(0, 2)), op("sleep")], "fin": 0, "fs": 0})
                o["l"].append(len(tasks))
    for t in range(nt):         # one of them fails, the others that come before it do not wait
        for o in tasks[t]["ops"]:
            if o["k"] == "gather" and r.random() < 0.3:
                x = r.choice(o["l"])
                o["l"].remove(x)
                o["l"].insert(0, x)
                tasks[x - 1]["ops"].append(op("fail"))
    if r.random() < 0.05:
        tasks[0]["ops"].insert(0, op("gather"))         # of nothing
    p = {"tasks": tasks, "nev": nev, "nq": nq, "style": r.randint(0, 7)}
    if r.random() < 0.12:
        p["raise"] = True
    return p


def chain(r):
    """A relay of n hops inside one cycle, through changing primitives."""
    n = r.randint(1, 14)
    tasks = [{"ops": [], "fin": 0, "fs": 0}]
    nev, nq, prev = 0, 0, None
    for i in range(n):
        kind = r.choice(["ev", "q", "join", "spawn", "cancel"])
        body = []
        if prev is not None:
            body.append(prev)
        body += [op("sleep")] * r.choice([0, 0, 1, 3])
        if kind == "ev":
            nev += 1
            body.append(op("set", nev))
            prev = op("wait", nev)
        elif kind == "q":
            nq += 1
            body.append(op("put", nq))
            prev = op("get", nq)
        elif kind == "join":
            prev = ("join", len(tasks) + 1)
        elif kind == "spawn":
            prev = op("sleep")
            nev += 1
            body.append(op("set", nev))
            prev = op("wait", nev)
        else:
            # a task that waits for ever is cancelled and its cleanup sets the event
            nev += 2
            tasks.append({"ops": [op("wait", nev - 1)], "fin": nev, "fs": r.randint(0, 2)})
            vic = len(tasks)
            tasks[0]["ops"].append(op("spawn", vic))
            body.append(op("cancel", vic))
            prev = op("wait", nev)
        if isinstance(prev, tuple):
            # the next task joins this one: it has to be the one that spawns it
            prev = None
            tasks.append({"ops": body, "fin": 0, "fs": 0})
            me = len(tasks)
            nev += 1
            tasks.append({"ops": [op("spawn", me), op("join", me), op("set", nev)], "fin": 0, "fs": 0})
            tasks[0]["ops"].append(op("spawn", len(tasks)))
            prev = op("wait", nev)
        else:
            tasks.append({"ops": body, "fin": 0, "fs": 0})
            tasks[0]["ops"].append(op("spawn", len(tasks)))
    if prev is not None:
        tasks.append({"ops": [prev, op("sleep")], "fin": 0, "fs": 0})
        tasks[0]["ops"].append(op("spawn", len(tasks)))
    sp = tasks[0]["ops"]
    r.shuffle(sp)
    tasks[0]["ops"] = sp + [op("clk", r.choice([0, 1, 1, 2]), m=r.randint(0, 5))]
    return {"tasks": tasks, "nev": max(nev, 1), "nq": max(nq, 1), "style": r.randint(0, 7)}


def long(r):
    """Very many hops inside one cycle."""
    n = r.randint(60, 160)
    kind = r.choice(["q", "sleep", "ev", "fill", "crowd"])
    tasks = [{"ops": [], "fin": 0, "fs": 0} for _ in range(3)]
    ops = [t["ops"] for t in tasks]
    if kind == "crowd":         # very many tasks, each of which wakes the next
        n = r.randint(65, 90)
        tasks = [{"ops": [op("wait", i), op("set", i + 1)], "fin": 0, "fs": 0} for i in range(n)]
        tasks[0]["ops"] = [op("spawn", i + 2) for i in range(n - 1)] + [op("clk", 1), op("set", 1), op("clk", 1)]
        return {"tasks": tasks, "nev": n, "nq": 1, "style": r.randint(0, 7)}
    if kind == "q":
        for _ in range(n):
            ops[1] += [op("put", 1), op("get", 2)]
            ops[2] += [op("get", 1), op("put", 2)]
    elif kind == "fill":        # a queue that holds very many values
        ops[1] += [op("put", 1) for _ in range(n)]
        ops[2] += [op("clk", 1)] * r.randint(0, 1) + [op("get", 1)] * r.randint(n - 2, n)
    elif kind == "ev":
        for _ in range(n):
            ops[1] += [op("sleep"), op("set", 1), op("wait", 2), op("clear", 2)]
            ops[2] += [op("wait", 1), op("clear", 1), op("set", 2)]
    else:
        ops[1] += [op("sleep")] * (2 * n)
        ops[2] += [op("sleep")] * n + [op("put", 1)]
    for _ in range(r.randint(0, 2)):
        ops[1].append(op("clk", 1))
    ops[0] += [op("spawn", 2), op("spawn", 3), op("clk", r.randint(1, 3), m=r.randint(0, 5))]
    return {"tasks": tasks, "nev": 2, "nq": 2, "style": r.randint(0, 7)}


def waiters(r):
    """Tasks that wait for the same queues and events, some of which are cancelled about when they are woken."""
    n = r.randint(2, 5)
    nq, nev = r.randint(1, 2), r.randint(1, 2)
    tasks = [{"ops": [op("spawn", i + 2) for i in range(n)], "fin": 0, "fs": 0}]
    for _ in range(n):
        ops = []
        for _ in range(r.randint(1, 3)):
            ops.append(r.choice([op("get", r.randint(1, nq)), op("get", 1), op("wait", r.randint(1, nev))]))
            if r.random() < 0.3:
                ops.append(r.choice([op("sleep"), op("put", r.randint(1, nq)), op("clk", 1)]))
        tasks.append({"ops": ops, "fin": r.choice([0, 0, r.randint(1, nev)]), "fs": r.randint(0, 1)})
    ops = tasks[0]["ops"]
    for _ in range(r.randint(3, 12)):
        x = r.random()
        ops.append(op("put", r.randint(1, nq)) if x < 0.4 else op("cancel", r.randint(2, n + 1)) if x < 0.65
                   else op("set", r.randint(1, nev)) if x < 0.75 else op("clear", r.randint(1, nev)) if x < 0.8
                   else op("sleep") if x < 0.9 else op("clk", 1))
    ops.append(op("clk", r.randint(1, 2)))
    return {"tasks": tasks, "nev": nev, "nq": nq, "style": r.randint(0, 7)}


def scenarios(seed, n):
    out = []
    for i in range(n):
        r = random.Random(seed * 1000003 + i)
        if i % 100 == 11:
            p = long(r)
            for t in p["tasks"]:
                t["fc"] = 0
            out.append({"runs": [p]})
            continue
        runs = [chain(r) if r.random() < 0.3 else rand_prog(r)]
        if r.random() < 0.15:
            runs = [waiters(r)]
        if r.random() < 0.2:
            runs.append(rand_prog(r))
        for p in runs:
            for t in p["tasks"]:
                t.setdefault("fc", 0)
            for t in p["tasks"][1:]:
                if r.random() < 0.15:
                    t["fc"] = r.choice([1, 1, 2, 3])
            # the clock is started later, by the body
            free = next((i for i, o in enumerate(p["tasks"][0]["ops"]) if o["k"] not in ("spawn", "sleep", "set", "clear", "put")),
                        len(p["tasks"][0]["ops"]))
            if r.random() < 0.25 and p["tasks"][0]["ops"]:
                p["startat"] = r.randint(1, min(free + 1, len(p["tasks"][0]["ops"])))
            p["odd"] = int(r.random() < 0.35)           # values of all kinds
            p["named"] = r.choice([0, 0, 0, 1, 2])      # tasks with names of their own
        out.append({"runs": runs})
    return out
