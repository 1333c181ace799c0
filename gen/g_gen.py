import keyword
import random
import re

import g_bind

WORDS = ["a", "b", "c", "io", "in", "req", "valid", "bits", "x1", "data", "q", "addr0", "ab", "0", "1", "Data", "ADDR", "aB"]
RESERVED = {"name", "bound", "write_mode", "signals", "current_level_signals", "bind", "assign", "step", "set_all", "as_dict"}


def ok(s):
    return s.isidentifier() and not keyword.iskeyword(s) and s not in RESERVED and s not in g_bind.BAD and not s.startswith("__")


def apply(ru, s):
    """Like the rule of the specification; only used to keep to rules under which names stay apart."""
    k = ru["k"]
    if k == "prefix":
        return s[len(ru["pre"]):] if s.startswith(ru["pre"]) else None
    if k == "dict":
        return next((m["key"] for m in ru["map"] if m["pin"] == s), None)
    m = re.search(ru["text"], s)
    return "".join(x or "" for x in m.groups()) if m else None


def paths(t, at=()):
    out = []
    for k, v in t.items():
        if isinstance(v, dict):
            if "" in v:
                out.append([*at, k])
            out += paths(v, (*at, k))
    return out


def node(r, depth, words, share):
    t = {}
    if share and r.random() < 0.35:
        return r.choice(share)
    for w in r.sample(words, r.randrange(1, min(4, len(words)) + 1)):
        if depth == 0 or r.random() < 0.45:
            t[w] = {"": ""}
        else:
            t[w] = node(r, depth - 1, words, share)
            if r.random() < 0.2:
                t[w] = {"": "", **t[w]} if r.random() < 0.5 else {**t[w], "": ""}
    share.append(t)
    return t


def from_tree(t, r):
    ps = paths(t)
    pins = ["_".join(p) for p in ps]
    if not 1 <= len(pins) <= 40 or len(set(pins)) != len(pins) or not all(map(ok, pins)) or not all(ok(w) for p in ps for w in p[:1]):
        return None
    r.shuffle(pins)
    return {"mode": "tree", "rule": g_bind.prefix_rule(""), "pins": pins, "names": ps, "json": t, "name": "B", "width": 0}


def tree_prog(r, n):
    words = r.sample(WORDS, r.randrange(2, 7))
    t = node(r, r.choice([0, 1, 2, 2, 3]), words, [])
    return from_tree(t, r)


def flat_prog(r, n):
    mode = r.choice(["prefix", "prefix", "dict", "regex", "regex"])
    pre = r.choice(["", "io_", "x_", "io_req_", "a"])
    names = list(dict.fromkeys("_".join(r.sample(WORDS, r.randrange(1, 4))) + r.choice(["", "", "_0", "9"])
                               for _ in range(r.choice([1, 1, 2, 3, 5, 8, 15, 30]))))
    if mode == "prefix":
        ru = g_bind.prefix_rule(pre)
        pins = [pre + s for s in names]
    elif mode == "dict":
        m = []
        for s in names:
            if r.random() < 0.8:
                pin = r.choice([s, "p_" + s, "io_" + s])
                if pin not in [x["pin"] for x in m]:
                    m.append({"key": s, "pin": pin})
        ru = {"k": "dict", "pre": "", "post": "", "alts": [], "map": m, "text": ""}
        pins = [x["pin"] for x in m if r.random() < 0.85]
    else:
        ru = g_bind.rule(r, ["re0", "re1", "re2", "re3", "re4", "re5", "re6", "re7"])
        pins = [p for p in (g_bind.inverse(r, ru, s) for s in names) if p]
    pins += [r.choice(WORDS) + r.choice(["", "_z", "_io"]) for _ in range(r.randrange(0, 5))]
    pins = [p for p in dict.fromkeys(pins) if p.isidentifier() and p not in g_bind.BAD and not p.startswith("__")]
    r.shuffle(pins)
    got = [apply(ru, p) for p in pins]
    got = [g for g in got if g is not None]
    if not got or len(set(got)) != len(got) or not all(map(ok, got)):
        return None
    return {"mode": mode, "rule": ru, "pins": pins, "names": [], "name": r.choice(["B", "AdderBundle", "_X1"]),
            "width": r.choice([0, 0, 20, 30, 40, 41, 80, r.randrange(1, 140)])}


def scenarios(seed, n):
    r = random.Random(seed * 7177 + 5)
    out = []
    while len(out) < n:
        x = tree_prog(r, n) if r.random() < 0.5 else flat_prog(r, n)
        if x:
            out.append(x)
    return out
