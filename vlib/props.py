"""Which parts decide which property."""
import json
import random

from . import parts


# --------------------------------------------------------------------- Sched
SCHED = {
    "C01": {"step_ready", "step_cancelled", "step_clk", "step_event", "step_queue", "step_join",
            "step_gather", "step_run", "hang"},
    "C02": {"clk_early", "clk_late", "step_clk"},
    "C03": {"kill_early", "gather_cancel", "kill_unexpected", "run_while_killed", "after_last_step",
            "steps_after_end", "last_step_alive", "end_early", "end_without_step",
            "end_alive", "end_result", "after_end", "no_end", "start_unexpected", "op_unexpected"},
    "C21": {"event_spurious", "queue_invented", "queue_order", "queue_unfair", "join_early",
            "gather_early", "gather_result", "gather_cancel", "sleep_no_turn", "step_event", "step_queue", "step_gather", "hang"},
}


def sched(ctx, labels, n_quick=900, n_thorough=20000):
    import g_sched
    progs = parts.design(ctx, "MC_Sched", constants=ctx.pick({"Len2": 1, "Len3": 1}, {"Len2": 2, "Len3": 1}))
    sc = [{"runs": [dict(p, style=i % 4)]} for i, p in enumerate(progs)]
    sc += g_sched.scenarios(ctx.seed, ctx.pick(n_quick, n_thorough))
    parts.traces(ctx, "sched", "Trace_Sched", sc, labels)


TV = "TLA+ specification, TLC; trace validation of recorded runs of the code"
SCHED_NOTE = ("TLC explores every small program of concurrent tasks (MC_Sched) and checks the scheduling contract on it; "
              "those programs and seeded random larger ones run on the real event loop with a fake clocked DUT and TLC "
              "validates every recorded event. Bounded: program size, number of programs; one clock.")


# ---------------------------------------------------------------------- Sync
END = {"end_early", "end_without_step", "end_result", "steps_after_end", "after_end", "no_end"}
SYNC = {
    "C01": {"step_hook", "step_mon", "step_dut", "step_ret", "step_event", "cmp_missing", "hang"},
    "C03": END | {"hook_foreign", "step_hook", "step_mon", "cmp_missing"},
    "C04": {"failure_lost", "mismatch_lost", "failure_invented", "hang"},
    "C05": {"hook_twice", "hook_foreign", "hook_args", "hook_order", "dut_before_model", "dut_args",
            "call_ret", "step_hook", "step_dut", "step_ret", "op_unexpected", "hang"},
    "C06": {"hook_prio", "hook_fifo", "hook_order", "dut_before_model"},
    "C07": {"cmp_wrong", "cmp_twice", "cmp_missing", "mismatch_lost", "failure_invented"},
    "C08": {"mon_early", "mon_missed", "mon_delivery", "step_mon", "port_value", "port_invented",
            "port_size", "step_port", "hang"},
    "C09": {"port_value", "port_invented", "port_size", "step_port", "drop_report", "hang"},
    "C11": {"exec_order", "exec_twice", "exec_early", "exec_late", "exec_results", "step_dut",
            "op_unexpected", "hang"},
}


def sync(ctx, labels, focuses=("any", "prio", "mon", "port"), n_quick=1000, n_thorough=25000):
    import copy
    import g_sync
    progs, seen = [], set()
    for x in parts.design(ctx, "MC_Sync", cfg=ctx.pick(None, "MC_Sync_thorough.cfg"),
                          constants=ctx.pick({"MaxDur": 0}, {"MaxDur": 1})):
        k = json.dumps(x, sort_keys=True)
        if k not in seen:
            seen.add(k)
            progs.append(x)
    sc = []
    for i, x in enumerate(progs):
        x = copy.deepcopy(x)
        x.update(agents=[{"name": "a1", "drivers": [{"name": "d1", "sig": 1}]}], models=[{}, {}],
                 envh=i % 2 == 0, stepfn=False)
        for j, c in enumerate(x["calls"]):
            c["dur"] = (i + j) % 3
        if x["len"] == 0:
            x["tasks"][0] = [{"k": "clk", "n": 2}]
        sc.append({"runs": [x]})
    if not ctx.thorough:
        sc = sc[ctx.seed % 2::2] if len(sc) > 400 else sc
    sc += g_sync.scenarios(ctx.seed, ctx.pick(n_quick, n_thorough), focuses)
    parts.traces(ctx, "sync", "Trace_Sync", sc, labels)


# ---------------------------------------------------------------------- Trig
def trig(ctx):
    import g_trig
    pr = parts.design(ctx, "MC_Trig", constants=ctx.pick({"N": 4, "MaxV": 2}, {"N": 6, "MaxV": 2}))
    sc = []
    for i, x in enumerate(pr):
        # the waveform on one pin, rotated ones on the others
        w = x["wave"]
        sc.append({"waves": [w, w[1:] + w[:1], w[::-1]], "ws": x["ws"], "via": i % 12, "mul": 5, "pre": i % 3})
    sc += g_trig.scenarios(ctx.seed, ctx.pick(400, 12000))
    parts.traces(ctx, "trig", "Trace_Trig", sc, None)


def c02(ctx):
    trig(ctx)
    sched(ctx, SCHED["C02"], 500)


# ----------------------------------------------- specifications of one property
def seq(domain, module, generate, mc=None, n_quick=1500, n_thorough=40000, jobs=7):
    """generate(seed, n) gives scenarios; mc(ctx) explores the design and gives more."""
    def f(ctx):
        sc = mc(ctx) if mc else []
        g = __import__("g_" + domain)
        sc = sc + g.scenarios(ctx.seed, ctx.pick(n_quick, n_thorough))
        parts.traces(ctx, domain, module, sc, None, jobs=jobs)
    return f


def mc_cov(ctx):
    out = []
    for d in (1, 0):
        for i, x in enumerate(parts.design(ctx, "MC_Cov", constants={"Disable": d, "MaxLen": ctx.pick(5, 8),
                                                                    "MaxHits": ctx.pick(1, 2)})):
            if i % ctx.pick(4, 1) == ctx.seed % ctx.pick(4, 1) or len(x["ops"]) <= 3:
                out.append({"targets": 1, "disable": d, "via": i % 12, "ops": x["ops"]})
    return out


def mc_utils(ctx):
    return parts.design(ctx, "MC_Utils", constants=ctx.pick({"MaxWays": 8, "MaxLen": 3, "MaxTaken": 8},
                                                            {"MaxWays": 8, "MaxLen": 5, "MaxTaken": 12}))


def mc_delay(ctx):
    out = []
    pr = parts.design(ctx, "MC_Delay", constants=ctx.pick({"N": 3, "MaxDelay": 2, "MaxRounds": 1},
                                                          {"N": 4, "MaxDelay": 3, "MaxRounds": 1}))
    pr = random.Random(ctx.seed).sample(sorted(pr, key=str), min(len(pr), ctx.pick(400, 20000)))
    k = {"Write": "write", "New": "new", "Hook": "drive", "Step": "clk"}
    for i, x in enumerate(pr):
        t = [{"k": k[e["a"]], "p": e["p"] if e["a"] != "Hook" else 2, **({"on": e["p"] - 2} if e["a"] == "New" and e["p"] > 1 else {}), "v": e["v"], "n": int(e["a"] == "Step")}
             for e in x["log"]]
        out.append({"len": 20, "tasks": [t + [{"k": "clk", "n": 2}]], "models": i % 3, "mask": i % 4, "late": i % 2})
    return out


def mc_dbg(ctx):
    pr = parts.design(ctx, "MC_Dbg", constants=ctx.pick({"MaxCmds": 3}, {"MaxCmds": 4}))
    pr = random.Random(ctx.seed).sample(sorted(pr, key=str), min(len(pr), ctx.pick(1200, 40000)))
    sigs = [{"name": "a", "width": 2, "count": 1, "depth": 1}, {"name": "b", "width": 2, "count": 0, "depth": 2}]
    return [{"runs": [{"sigs": sigs, "cmds": x, "via": i % 30}]} for i, x in enumerate(pr)]


def mc_log(ctx):
    pr = parts.design(ctx, "MC_Log", constants=ctx.pick({"MaxLen": 3}, {"MaxLen": 4}))
    pr = random.Random(ctx.seed).sample(sorted(pr, key=str), min(len(pr), ctx.pick(700, 30000)))
    return [{"files": 1, "via": i % 20, "ops": x["ops"]} for i, x in enumerate(pr)]


def mc_req(ctx):
    pr = parts.design(ctx, "MC_Req", constants=ctx.pick({"MaxLen": 2, "CondLen": 2}, {"MaxLen": 3, "CondLen": 2}))
    pr = random.Random(ctx.seed).sample(sorted(pr, key=str), min(len(pr), ctx.pick(500, 20000)))
    return [{"pins": 2, "duts": 1, "bundles": 1, "subat": 2, "via": i % 12, "ops": [{"a": "Batch", "b": 1, "reqs": x["reqs"]},
                                                          {"a": "Step", "d": 1}]} for i, x in enumerate(pr)]


def mc_assign(ctx):
    t = {"sigs": ["a", "o", "u"], "lists": [["l", 2]], "subs": [["s", {"sigs": ["a", "b"], "lists": [], "subs": [], "blists": []}]],
         "blists": [["v", 2, {"sigs": ["a"], "lists": [], "subs": [], "blists": []}]]}
    e = lambda *p: [{"n": a, "i": i} for a, i in p]  # noqa: E731
    lv = [(e(("a", -1)), 0, 1), (e(("o", -1)), 1, 1), (e(("u", -1)), 0, 0), (e(("l", 0)), 0, 1), (e(("l", 1)), 0, 1),
          (e(("s", -1), ("a", -1)), 0, 1), (e(("s", -1), ("b", -1)), 1, 1), (e(("v", 0), ("a", -1)), 0, 1),
          (e(("v", 1), ("a", -1)), 0, 1)]
    lv = [{"path": p, "out": o, "width": 8, "conn": c} for p, o, c in lv]
    pr = parts.design(ctx, "MC_Assign")
    pr = [x for i, x in enumerate(sorted(pr, key=str)) if ctx.thorough or i % 6 == ctx.seed % 6]
    first = [{"a": "Pin", "k": k + 1, "v": k + 1} for k in range(9)]
    return [{"tree": t, "leaves": lv, "via": i % 60,
             "ops": first + [x, {"a": "AsDict", "at": [], "flat": i % 2}, {"a": "SetAll", "at": [], "v": 3}, {"a": "Back"}]}
            for i, x in enumerate(pr)]


BIND = {
    "C12": {"bind_wrong", "bind_missing", "bind_twice", "report", "detect", "detect_specific", "rules", "names", "access", "hang"},
    "C13": {"bind_wrong", "bind_missing", "bind_twice", "conn", "access", "detect_dut", "clock", "mode", "hang"},
}


def mc_bind(ctx):
    import g_bind as G
    pr = parts.design(ctx, "MC_Bind", constants={"MaxPins": ctx.pick(2, 4)})
    uniq = sorted({json.dumps(x, sort_keys=True) for x in pr})
    r = random.Random(ctx.seed)
    uniq = r.sample(uniq, min(len(uniq), ctx.pick(400, 20000)))
    pool = ["a", "x_a", "s_a", "x_s_a", "x_v0_a", "x_l0", "x_s_a_o", "v0_a"]
    leaf = {"sigs": ["a"], "lists": [], "subs": [], "blists": []}
    out = []
    for k, x in enumerate(map(json.loads, uniq)):
        t = {"sigs": ["a"], "lists": [["l", 1, "l#", 0]], "subs": [["s", x["sub"], dict(leaf, sigs=["a", "b"])]],
             "blists": [["v", 1, "v#_", 0, leaf]]}
        cd = {"nodes": G.nodes(t, x["top"]), "leaves": G.leaves(t)}
        other = r.sample(pool, r.randrange(1, 6))
        duts = [{"pins": d, "outs": [0] * len(d)} for d in (x["pins"], other)]
        out.append({"trees": [t], "classes": [cd], "insts": [1, 1], "names": ["", ""], "duts": duts, "via": k % 60,
                    "ops": [{"a": "Bind", "i": 1, "n": 1, "d": 1, "acc": k % 2}, {"a": "Query", "i": 1, "name": r.choice(pool)},
                            {"a": "Bind", "i": 2, "n": 1 + k % 5 % 3, "d": 1 + k % 2, "acc": 1}, {"a": "Bind", "i": 1, "n": 1 + k % 3, "d": 2, "acc": k // 2 % 2},
                            {"a": "Query", "i": 2, "name": r.choice(pool)}]})
    return out


def bind(i):
    def f(ctx):
        import g_bind
        sc = mc_bind(ctx) + g_bind.scenarios(ctx.seed + (i == "C13"), ctx.pick(900, 30000))
        parts.traces(ctx, "bind", "Trace_Bind", sc, BIND[i])
    return f


def assign(ctx):
    import g_bind
    seq("assign", "Trace_Assign", None, mc_assign, 900)(ctx)
    # write modes set before and after binds, on bundles and those inside of them
    sc = [x for x in g_bind.scenarios(ctx.seed + 2, ctx.pick(1500, 20000))
          if any(o["a"] == "Mode" for o in x["ops"]) or any(n["mode"] != "-" for c in x["classes"] for n in c["nodes"])]
    parts.traces(ctx, "bind", "Trace_Bind", sc[:ctx.pick(350, 6000)], {"mode"})


def mc_attach(ctx):
    pr = parts.design(ctx, "MC_Attach", constants=ctx.pick({"MaxDecls": 2, "MaxLen": 2}, {"MaxDecls": 2, "MaxLen": 3}))
    if ctx.thorough:
        pr += parts.design(ctx, "MC_Attach", constants={"MaxDecls": 3, "MaxLen": 2})
    pr = random.Random(ctx.seed).sample(sorted(pr, key=str), min(len(pr), ctx.pick(500, 20000)))
    m = lambda a, n, k: {"agent": a, "name": n, "kind": k}  # noqa: E731
    envs = [[m("a", "d", "driver"), m("a", "m", "monitor"), m("b", "d", "driver")],
            [m("a", "d", "driver"), m("a", "m", "driver"), m("c", "m", "monitor")]]
    return [{"agents": [["a", "b"], ["a", "c"]], "envs": envs, "classes": [x["cls"]], "insts": [1, 1], "via": i % 60,
             "ops": x["ops"] + [{"a": "Attach", "m": 1 + i % 2, "e": 1}]} for i, x in enumerate(pr)]


def mc_comp(ctx):
    pr = parts.design(ctx, "MC_Comp", constants=ctx.pick({"MaxOps": 1, "MaxClk": 2}, {"MaxOps": 2, "MaxClk": 2}))
    uniq = sorted({json.dumps(x, sort_keys=True) for x in pr})
    uniq = random.Random(ctx.seed).sample(uniq, min(len(uniq), ctx.pick(500, 20000)))
    return [{"runs": [dict(json.loads(x), via=i % 60)]} for i, x in enumerate(uniq)]


def mc_decl(ctx):
    pr = (parts.design(ctx, "MC_Decl", constants={"MaxLen": 1, "What": '"decl"'})
          + parts.design(ctx, "MC_Decl", constants={"MaxLen": ctx.pick(2, 3), "What": '"exec"'})
          + parts.design(ctx, "MC_Decl", constants={"MaxLen": ctx.pick(3, 4), "What": '"cov"'}))
    pr = random.Random(ctx.seed).sample(sorted(pr, key=str), min(len(pr), ctx.pick(1500, 20000)))
    decls = [o for x in pr if x["what"] == "decl" for o in x["ops"]]
    out = [{"runs": [{"len": 1, "via": k % 4, "ops": decls[k:k + 20]}]} for k in range(0, len(decls), 20)]
    for i, x in enumerate(x for x in pr if x["what"] != "decl"):
        ops = x["ops"]
        if x["what"] == "exec":
            ops = [{"k": "exec", "exit": "all", "adds": [dict(o, n=j + 1) for j, o in enumerate(ops)]}]
        out.append({"runs": [{"len": 1, "via": i % 4, "ops": ops}]})
    return out


def mc_gen(ctx):
    import g_gen
    r = random.Random(ctx.seed)
    pr = parts.design(ctx, "MC_Gen", "MC_Gen_names.cfg") + parts.design(ctx, "MC_Gen", "MC_Gen_deep.cfg")
    pr = r.sample(sorted(pr, key=str), ctx.pick(1200, len(pr)))

    def js(x):
        t = {n: js(y) for n, y in (x["kids"] or {}).items()}
        if x["leaf"]:
            t = {"": "", **t} if r.random() < 0.5 else {**t, "": ""}
        return t
    return [y for y in (g_gen.from_tree(js(x), r) for x in pr) if y]


def p(run, technique=TV, note="", **kw):
    return dict(run=run, technique=technique, note=note, **kw)


SYNC_NOTE = ("TLC explores the scheduling algorithm for every small configuration of calls, hooks and a monitor against the "
             "contract (MC_Sync); those configurations and seeded random environments (agents, models, overlapping calls, "
             "executors, ports) run on the real code and TLC validates every recorded event. Bounded: size and number of "
             "programs, one clock.")


BIND_NOTE = ("TLC runs the binding algorithm, level by level and pin by pin in every order, against the rules for every "
             "combination of rules and every small set of pins (MC_Bind); those and seeded random histories of binds, rule "
             "changes, write modes and queries on random trees of bundles, several instances and devices run on the real "
             "code, and TLC validates after each operation where every signal writes to, what is reported and which clock "
             "each bundle follows. Bounded: size of trees, seven forms of rules, length; one clock per device.")


def both(i, *a, **k):
    def f(ctx):
        sched(ctx, SCHED[i], 500, 15000)
        sync(ctx, SYNC[i], *a, **k)
    return f


def syn(i, *a, **k):
    return lambda ctx: sync(ctx, SYNC[i], *a, **k)


PROPS = {
    "C01": p(both("C01", n_quick=500), note=SCHED_NOTE + " Same for environments with hooks and monitors (Sync)."),
    "C02": p(c02, note="TLC checks the trigger loops against their documented conditions for every waveform up to the bound "
             "(MC_Trig); those waveforms with every kind of wait, and random ones, run on the real code through every kind "
             "of object, and TLC validates each recorded call, return and step. Bounded: waveform length, values, one clock."),
    "C03": p(both("C03", n_quick=500), note=SCHED_NOTE + " Same for environments with hooks and comparisons (Sync)."),
    "C04": p(syn("C04"), note=SYNC_NOTE),
    "C05": p(syn("C05"), note=SYNC_NOTE),
    "C06": p(syn("C06", ("prio", "any")), note=SYNC_NOTE),
    "C07": p(syn("C07", ("prio", "any")), note=SYNC_NOTE),
    "C08": p(syn("C08", ("mon", "mon", "port")), note=SYNC_NOTE),
    "C09": p(syn("C09", ("port", "mon")), note=SYNC_NOTE),
    "C11": p(syn("C11", ("any", "prio")), note=SYNC_NOTE),
    "C10": p(seq("attach", "Trace_Attach", None, mc_attach, 1100, 30000), note="TLC runs the marking of hooks and ports and "
             "the connections it makes against the specification for every class of models with a few declarations and every "
             "history of attaches and detaches of two models and two environments (MC_Attach); a sample of those and seeded "
             "random ones run on the real code, where after each operation every method of every environment is called, and "
             "TLC validates who heard of it. Bounded: declarations, models, environments, length."),
    "C12": p(bind("C12"), note=BIND_NOTE),
    "C13": p(bind("C13"), note=BIND_NOTE),
    "C14": p(assign, note="TLC runs the recursion of an assignment against "
             "its definition for every dictionary over a tree with a list, sub-bundle, bundle list, output and unconnected signal "
             "(MC_Assign); those dictionaries and seeded random operation sequences on random trees of bundles run on real "
             "bundles and TLC validates every pin after each operation; histories of binds and write modes (Bind). Bounded: size of "
             "trees, length."),
    "C15": p(seq("req", "Trace_Req", None, mc_req, 900), note="TLC runs the queue and the request held back against the "
             "specification of the issue order for every small batch (MC_Req, with liveness); those batches and seeded random "
             "sequences of batches, rebinds and steps run on a real bundle and TLC validates the pins at each step, each function "
             "call and what is returned. Bounded: batch length; functions given as requests return nothing."),
    "C16": p(seq("delay", "Trace_Delay", None, mc_delay, 900), note="TLC runs the shift register of a delayer against the "
             "definition over the history of the signal for every short run (MC_Delay); those runs and seeded random ones with "
             "concurrent tasks, model hooks and executors run on the real code and TLC validates every value read. Bounded: "
             "length, delays, one clock."),
    "C17": p(seq("cov", "Trace_Cov", None, mc_cov, 900), note="TLC explores every state and operation of a small coverage group "
             "(MC_Cov) and compares its counts with their definition over the history; each of those transitions and "
             "seeded random operation sequences run on the real class and TLC validates everything the group reports after "
             "each operation. Bounded: points, bins, length; integer targets."),
    "C18": p(seq("utils", "Trace_Utils", None, mc_utils, 600), note="TLC runs the tree of bits and the counter against their "
             "definitions over the history for every history up to the bound, and checks on a basis that the LFSR step has an "
             "inverse (MC_Utils); those histories and seeded random longer ones, with up to 64 ways, run on the real classes. "
             "Bounded: ways, length."),
    "C19": p(seq("log", "Trace_Log", None, mc_log, 700, 15000), note="TLC runs the logger as a list of handlers with levels "
             "against the specification for every short sequence of set-ups and records (MC_Log); a sample of those and seeded "
             "random ones run on the real logger and TLC validates counts, console text and file text after each operation. "
             "Bounded: length; records logged by the library itself are not mixed in."),
    "C20": p(seq("gen", "Trace_Gen", None, mc_gen, 2500, 60000), note="TLC runs the class structure that the tree generator "
             "makes against the given names for every tree of names up to the bound (MC_Gen); a sample of those trees and "
             "seeded random trees, prefixes, regular expressions and dictionaries go through the real generators, the "
             "generated source is executed and bound, and TLC validates which pin each signal of the bundle writes to. Bounded: "
             "size of trees and sets, seven forms of regular expressions; names that are not valid identifiers are left out."),
    "C22": p(seq("comp", "Trace_Comp", None, mc_comp, 900), note="TLC runs the way a component comes to its main function "
             "against the contract for every small program of components and every schedule (MC_Comp, with liveness); those programs "
             "and seeded random ones run on the real event loop and TLC validates every start, operation, end and clock step. "
             "Bounded: components, operations; one clock."),
    "C23": p(seq("dbg", "Trace_Dbg", None, mc_dbg, 900), note="TLC runs each command as the operations on a signal with write modes "
             "that it consists of against the contract, for every short sequence of commands (MC_Dbg); a sample of those and seeded "
             "random ones are given to the real debugger on a fake device and TLC validates the state of the device, what is printed "
             "and reported after each command. Bounded: length, signals; the device follows picker's interface as the code uses it."),
    "C24": p(seq("decl", "Trace_Decl", None, mc_decl, 1200), note="TLC runs the checks of executors, coverage groups, hooks and ports "
             "as built, argument by argument, against the contract for every short history (MC_Decl); those and seeded random "
             "ones are tried on the real code and TLC validates what is accepted and what is left of what is refused. "
             "Bounded: length, values."),
    "C21": p(lambda ctx: sched(ctx, SCHED["C21"]), note=SCHED_NOTE),
}
