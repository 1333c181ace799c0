"""Random declarations for the Decl specification."""
import random

NONE = -999
HOOKS = ["driver_hook", "monitor_hook", "agent_hook"]
PORTS = ["DriverPort", "MonitorPort", "AgentPort"]


def decl(r):
    k = r.choice(HOOKS + PORTS)
    o = {"k": "decl", "kind": k, "path": "", "agent": "", "name": "", "agents": 0, "prio": NONE, "order": "", "max": NONE}
    if k.lower().startswith("agent"):
        o["agent"] = r.choice(["", "", "a", "b"])
        o["agents"] = r.choice([0, 0, 1])
        o["methods"] = r.choice([0, 0, 1])
    else:
        o["path"] = r.choice(["", "", "a.d"])
        o["agent"] = r.choice(["", "", "a"])
        o["name"] = r.choice(["", "", "d"])
    if k in HOOKS:
        o["prio"] = r.choice([NONE, NONE, NONE, 0, 1, 50, 98, 99, 100, 101, 200, -1, -50])
        if k != "monitor_hook":
            o["order"] = r.choice(["", "", "", "model_first", "dut_first", "first", "parallel", "Model_first", "dut"])
    else:
        o["max"] = r.choice([NONE, NONE, 1, 2, 100, -1, 0, 0, -2, -3, -100])
    return o


def program(r):
    n = [0]
    length = r.randint(1, 5)
    ops = []

    def add():
        n[0] += 1
        drv = int(r.random() < 0.6)
        o = {"n": n[0], "g": r.choice(["", "", "g1", "g2"]), "drv": drv, "prio": NONE, "order": ""}
        if r.random() < 0.5:
            o["prio"] = r.choice([0, 1, 50, 98, 99, 100, 101, 200, -1, -50]) if drv else r.choice([0, 5, 99, 100])
        if r.random() < 0.3:
            o["order"] = r.choice(["model_first", "dut_first", "parallel"])
        if drv == 0 and r.random() < 0.3:
            o["prio"], o["order"] = NONE, ""
        return o

    names = ["p1", "p2", "p3", "P1"]
    for _ in range(r.randint(1, 14)):
        x = r.random()
        if x < 0.3:
            ops.append(decl(r))
        elif x < 0.5:
            ops.append({"k": "exec", "exit": r.choice(["all"] * 6 + ["any", "none"] + ["every", "All", "first", "any ", "", "NoneType"]),
                        "adds": [add() for _ in range(r.randint(0, 5))]})
            if ops[-1]["exit"] == "any":        # any of none would be waited for for ever
                n[0] += 1
                ops[-1]["adds"].append({"n": n[0], "g": "", "drv": 1, "prio": NONE, "order": ""})
        elif x < 0.68:
            y = r.random()
            if y < 0.6:
                ops.append({"k": "point", "name": r.choice(names), "bins": r.choice(["one", "dict", "list", "value", "dictbad", "listbad"])})
            else:
                ops.append({"k": r.choice(["ask", "ask", "drop", "reset"]), "name": r.choice(names)})
        elif x < 0.74:
            ops.append({"k": "list", "of": r.choice(["S", "B"]), "fmt": r.choice([0, 1, 1, 1]), "n": r.choice([1, 2, 7, 0, -1, -3])})
        elif x < 0.86:
            m = length if r.random() < 0.5 else max(0, length + r.choice([-2, -1, 1, 2, 5]))
            ops.append({"k": "assign", "vals": [r.randrange(1, 50) for _ in range(m)], "via": r.randrange(2)})
        elif x < 0.91:
            ops.append({"k": "delay", "n": r.choice([0, 1, 5, -1, -2, -64])})
        elif x < 0.95:
            ops.append({"k": "attach", "model": r.randrange(2), "what": r.randrange(5)})
        else:
            ops.append({"k": "call", "kind": r.choice(["driver", "agent"]), "coro": r.randrange(2), "others": r.randrange(3)})
    return {"len": length, "ops": ops, "via": r.randrange(4)}


def scenarios(seed, n):
    r = random.Random(seed * 5449 + 7)
    return [{"runs": [program(r) for _ in range(r.choice([1, 1, 2]))]} for _ in range(n)]
