"""Recorder for the Assign specification."""
import collections, copy, logging

import common
import tree as T
from common import DUT, toffee
from toffee import Bundle, BundleList, WriteMode


class Errors(logging.Handler):
    def __init__(self):
        super().__init__()
        self.n = 0

    def emit(self, record):
        if record.levelno >= logging.ERROR:
            self.n += 1


class Port:
    """What a bundle needs of an XPort."""

    def __init__(self, dut, keys):
        self.dut, self.keys = dut, keys

    def GetKeys(self):
        return self.keys

    def __getitem__(self, k):
        return getattr(self.dut, k)


class Obj:
    def __init__(self, d, multilevel):
        self.d, self.m = d, multilevel

    def __bundle_assign__(self, bundle):
        bundle.assign(self.d, self.m)

    def __eq__(self, other):
        return isinstance(other, Obj) and (self.d, self.m) == (other.d, other.m)


def other_kinds(d, how, top=True):
    """The same assignment with values of other kinds: booleans, tuples, other mappings
    and objects that assign themselves inside."""
    out = collections.OrderedDict() if how & 1 else {}
    for k, v in d.items():
        if isinstance(v, dict):
            v = other_kinds(v, how, False)
        elif isinstance(v, list):
            v = [other_kinds(x, how, False) if isinstance(x, dict) else bool(x) if how & 2 and x in (0, 1) else x for x in v]
            if how & 4:
                v = tuple(v)
        elif how & 2 and v in (0, 1):
            v = bool(v)
        out[k] = v
    return Obj(out, True) if how & 8 and not top else out


def enc(v):
    """Big values, as the specification knows them: big(v) stands for v."""
    if v is None:
        return -1
    v = int(v)
    if v < 1 << 33:
        return v
    h = v >> 33
    return h if v == big(h) and h < 1 << 31 else -7


def big(v):
    return v and v << 33 | v ^ 0x55555555


def run_program(prog):
    rec = common.new_recorder()
    errs = Errors()
    toffee.setup_logging(toffee.ERROR, console_display=False)
    toffee.get_logger().addHandler(errs)
    t, leaves, via = prog["tree"], prog["leaves"], prog.get("via", 0)
    names = {k: T.pin_name(x["path"]) for k, x in enumerate(leaves)}
    dut = DUT([names[k] for k, x in enumerate(leaves) if x["conn"]],
              widths={names[k]: x["width"] for k, x in enumerate(leaves)},
              outs=[names[k] for k, x in enumerate(leaves) if x["out"]])
    if via % 4 == 3 and not (t["lists"] or t["subs"] or t["blists"]) and all(x["conn"] for x in leaves):
        b = Bundle.from_xport(Port(dut, t["sigs"]))     # made of the pins themselves
    else:
        b = T.build(t, via)().bind(dut)
    other = T.build(t, via)().bind(DUT([names[k] for k, x in enumerate(leaves)]))

    def state():
        return dict(vals=[enc(getattr(dut, names[k]).value) if x["conn"] else -1 for k, x in enumerate(leaves)],
                    modes=[(getattr(dut, names[k]).xdata.mode or "-") if x["conn"] else "-" for k, x in enumerate(leaves)])

    tx = big if prog.get("big") else (lambda v: v)
    snap = None
    for k, o in enumerate(prog["ops"]):
        a = o["a"]
        x = T.resolve(b, o["at"]) if "at" in o else b
        errs.n = 0
        if a in ("Assign", "Back"):
            if a == "Back":
                if snap is None:
                    continue
                d, fl, ev = snap
                x = T.resolve(b, ev["at"])
                o = ev
            else:
                fl = o["flat"]
                items = [(i["path"], tx(i["v"])) for i in o["items"]]
                stars = [(i["path"], tx(i["v"])) for i in o["stars"]]
                d = T.flat(items, stars, o["at"], t if (via + k) % 3 == 0 else None) if fl else T.nested(t, items, stars, o["at"])
                if (how := (via * 7 + k * 3) % 32) < 16:
                    d = other_kinds(d, how & 7 if fl else how)
            keep = copy.deepcopy(d)
            if (via + k) % 5 == 4:
                x.assign(Obj(d, not fl))
            elif fl:
                x.assign(d, multilevel=False)
            elif (via + k) % 2:
                x.assign(d)
            else:
                x.assign(d, True)
            rec(a="Assign", at=o["at"], items=o["items"], stars=o["stars"], errs=errs.n,
                same=int(d == keep and list(d) == list(keep)), **state())
        elif a == "SetAll":
            x.set_all(tx(o["v"]))
            rec(**o, **state())
        elif a == "Random":
            draws = []
            box = [o["seed"]]

            def rnd(lo, hi):
                box[0] = (box[0] * 1103515245 + 12345) & 0x7FFFFFFF
                v = lo + (box[0] >> 8) % (hi - lo + 1)
                if hi >> 66:
                    v = big(v)
                draws.append([enc(v), str(lo), str(hi) if hi < 1 << 30 or hi & (hi + 1) else f"2^{hi.bit_length()}-1"])
                return v

            kw = {"random_func": rnd}
            if o["lo"] >= 0:
                kw["value_range"] = (o["lo"], o["hi"])
            if o["excl"]:
                kw["exclude_signals"] = list(o["excl"])
            x.randomize_all(**kw)
            rec(draws=draws or [[-1, "", ""]], **o, **state())
        elif a == "AsDict":
            d = x.as_dict(False) if o["flat"] else (x.as_dict() if (via + k) % 2 else x.as_dict(multilevel=True))
            res = []
            none = enc
            if o["flat"]:
                for key, v in d.items():
                    if isinstance(v, list):
                        res += [{"key": key, "i": i, "path": [], "v": none(y)} for i, y in enumerate(v)]
                    else:
                        res.append({"key": key, "i": -1, "path": [], "v": none(v)})
            else:
                n = len(o["at"])
                res = [{"key": "", "i": 0, "path": p, "v": none(v)} for p, v in T.flatten(d)]
            vals = {repr(y["path"]): v for y, v in zip(leaves, state()["vals"])}
            under = [y for y in leaves if y["path"][:len(o["at"])] == o["at"]]
            snap = (d, o["flat"], {"at": o["at"], "stars": [],
                                   "items": [{"path": y["path"], "v": vals[repr(y["path"])]} for y in under]})
            rec(res=res, **o, **state())
        elif a == "Mode":
            if (via + k) % 2:
                {"imme": x.set_write_mode_as_imme, "rise": x.set_write_mode_as_rise,
                 "fall": x.set_write_mode_as_fall}[o["m"]]()
            else:
                x.set_write_mode({"imme": WriteMode.Imme, "rise": WriteMode.Rise, "fall": WriteMode.Fall}[o["m"]])
            rec(**o, **state())
        elif a == "Pin":
            if leaves[o["k"] - 1]["conn"]:
                getattr(dut, names[o["k"] - 1]).value = tx(o["v"])
                rec(**o, **state())
        elif a == "Write":       # through the bundle
            s = T.resolve(b, leaves[o["k"] - 1]["path"])
            s.value = tx(o["v"])
            if leaves[o["k"] - 1]["conn"]:
                rec(a="Pin", k=o["k"], v=o["v"], **state())
            else:
                rec(a="Get", k=o["k"], v=enc(s.value), **state())
        elif a == "Get":
            p = leaves[o["k"] - 1]["path"]
            s = T.resolve(b, p)
            if p[-1]["i"] < 0 and (via + k) % 2:
                s = T.resolve(b, p[:-1])[p[-1]["n"]]
            rec(v=enc(s.value), **o, **state())
        elif a == "Other":
            other.set_all(tx(o["v"]))
            other.assign({"*": tx(o["v"])})
            other.set_write_mode(WriteMode.Fall)
    rec(a="End")
    common.quiet_logging()
    return {"prog": {"leaves": leaves}, "ev": rec.ev}


def run(sc):
    return [run_program(sc)]


def partial(sc, ev, kind):
    return {"prog": {"leaves": sc["leaves"]}, "ev": [{"a": kind}]}
