"""Trees of bundles.

A tree is {"sigs": [name], "lists": [[name, len]], "subs": [[name, tree]],
"blists": [[name, len, tree]]}; a path is a list of {"n", "i"}."""
import common  # noqa: F401
from toffee import Bundle, BundleList, Signal, SignalList


def leaves(tree, at=()):
    out = []
    for s in tree["sigs"]:
        out.append([*at, {"n": s, "i": -1}])
    for n, k in tree["lists"]:
        out += [[*at, {"n": n, "i": i}] for i in range(k)]
    for n, t in tree["subs"]:
        out += leaves(t, (*at, {"n": n, "i": -1}))
    for n, k, t in tree["blists"]:
        for i in range(k):
            out += leaves(t, (*at, {"n": n, "i": i}))
    return out


def pin_name(path):
    return "_".join(x["n"] + (str(x["i"]) if x["i"] >= 0 else "") for x in path)


def build(tree, style=0):
    """A Bundle class; every sub-bundle is bound by the prefix of its name."""
    body = {}
    if style % 2:
        body["signals"] = list(tree["sigs"])
    else:
        for s in tree["sigs"]:
            body[s] = Signal()
    for n, k in tree["lists"]:
        body[n] = SignalList(f"{n}#", k)
    subs = {}
    for n, t in tree["subs"]:
        c = build(t, style)
        subs[n] = lambda c=c, n=n: c.from_prefix(f"{n}_")
    for n, k, t in tree["blists"]:
        c = build(t, style)
        subs[n] = lambda c=c, n=n, k=k: BundleList(c, f"{n}#_", k)
    if style % 3 == 0:
        body.update({n: f() for n, f in subs.items()})
    else:
        def init(self):
            Bundle.__init__(self)
            for n, f in subs.items():
                setattr(self, n, f())
        body["__init__"] = init
    return type("T", (Bundle,), body)


def resolve(obj, path):
    """The object a path leads to, through attributes and indices."""
    for x in path:
        obj = getattr(obj, x["n"])
        if x["i"] >= 0:
            obj = obj[x["i"]]
    return obj


def flatten(d, at=()):
    """(path, value) for a nested dictionary of values, lists and dictionaries."""
    out = []
    for k, v in d.items():
        if isinstance(v, dict):
            out += flatten(v, (*at, {"n": k, "i": -1}))
        elif isinstance(v, list):
            for i, x in enumerate(v):
                p = (*at, {"n": k, "i": i})
                out += flatten(x, p) if isinstance(x, dict) else [(list(p), x)]
        else:
            out.append(([*at, {"n": k, "i": -1}], v))
    return out


def elem(x):
    return x["n"] + (f"[{x['i']}]" if x["i"] >= 0 else "")


def nested(tree, items, stars, at):
    """A nested dictionary for an assignment at `at`.  items, stars: (path, v)."""
    n = len(at)

    def sub(t, here):
        d = {}
        for p, v in stars:
            if p == here:
                d["*"] = v
        mine = [(p, v) for p, v in items if p[:len(here)] == here]
        deeper = [p for p, _ in stars if p[:len(here)] == here and len(p) > len(here)]
        for p in [q for q, _ in mine] + deeper:
            x = p[len(here)]
            if x["n"] in d:
                continue
            lens = dict(map(tuple, t["lists"]))
            blens = {a: (k, b) for a, k, b in t["blists"]}
            tsub = dict(map(tuple, t["subs"]))
            if x["n"] in lens:
                vals = {q[-1]["i"]: v for q, v in mine if q[len(here)]["n"] == x["n"]}
                d[x["n"]] = [vals[i] for i in range(lens[x["n"]])]
            elif x["n"] in tsub:
                d[x["n"]] = sub(tsub[x["n"]], here + [x])
            elif x["n"] in blens:
                k, b = blens[x["n"]]
                d[x["n"]] = [sub(b, here + [{"n": x["n"], "i": i}]) for i in range(k)]
            else:
                d[x["n"]] = [v for q, v in mine if q == p][0]
        return d

    def find(t, path):
        for x in path:
            t = ([a[1] for a in t["subs"] if a[0] == x["n"]] + [a[2] for a in t["blists"] if a[0] == x["n"]])[0]
        return t

    return sub(find(tree, at), list(at[:n]))


def below(t, path):
    for x in path:
        t = ([a[1] for a in t["subs"] if a[0] == x["n"]] + [a[2] for a in t["blists"] if a[0] == x["n"]])[0]
    return t


def flat(items, stars, at, whole=None):
    """A dictionary with flat names; with `whole` (the tree) lists of bundles are
    given as a list of such dictionaries."""
    n = len(at)
    d, lists = {}, []
    for p, v in stars:
        if p == at:
            d["*"] = v
    for p, v in items:
        r = p[n:]
        js = [j for j in range(len(r) - 1) if r[j]["i"] >= 0]
        if whole and js:
            key = ".".join([x["n"] for x in r[:js[0] + 1]])
            if key not in d:
                head, name = p[:n + js[0]], r[js[0]]["n"]
                k = [b[1] for b in below(whole, head)["blists"] if b[0] == name][0]
                d[key] = []
                for i in range(k):
                    e = head + [{"n": name, "i": i}]
                    d[key].append(flat([q for q in items if q[0][:len(e)] == e], [], e, whole))
            continue
        key = ".".join([elem(x) for x in r[:-1]] + [r[-1]["n"]])
        if r[-1]["i"] >= 0:
            d.setdefault(key, []).append(v)
        else:
            d[key] = v
    return d
