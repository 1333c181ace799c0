"""Recorder for the Dbg specification: the commands of the debugger on a fake device."""
import contextlib
import io
import re

import common
import toffee.debug as tdebug


class Signal:
    """An internal signal: a write has a mode, and is dropped if it would not change the value unless told otherwise."""

    def __init__(self, name, width, wide=0):
        self.name, self.width, self.wide = name, width, wide
        self.val, self.forced, self.mode, self.same = 0, 0, "normal", True

    def W(self):
        return self.width + 40 * self.wide

    @property
    def value(self):
        return self.val * WIDE if self.wide else self.val

    @value.setter
    def value(self, v):
        if self.wide:
            v = 2 ** 30 - 1 - v % 1000 if v % WIDE else v // WIDE
        v %= 2 ** self.width
        if self.same and v == self.val:
            return
        if self.mode == "force":
            self.val, self.forced = v, 1
        elif self.mode == "release":
            self.forced = 0
        elif not self.forced:
            self.val = v

    def SetIgnoreSameDataWrite(self, flag):
        self.same = flag

    def AsVPIWriteForce(self):
        self.mode = "force"

    def AsVPIWriteRelease(self):
        self.mode = "release"

    def AsVPIWriteNoDelay(self):
        self.mode = "normal"


class Dev:
    def __init__(self, sigs):
        self.sigs = sigs
        self.obj = {s["name"]: Signal(s["name"], s["width"], s.get("wide", 0)) for s in sigs}
        self.sum = self.cyc = self.wave = 0

    def Step(self, n=1):
        for _ in range(n):
            self.cyc += 1
            for s in self.sigs:
                o = self.obj[s["name"]]
                if s["count"] and not o.forced:
                    o.val = (o.val + 1) % 2 ** s["width"]
            self.RefreshComb()

    def RefreshComb(self):
        self.sum = sum(o.val for o in self.obj.values()) % 65536

    def FlushWaveform(self):
        self.wave += 1

    def GetInternalSignal(self, name, *_):
        return self.obj.get(name)

    def VPIInternalSignalList(self, prefix="", deep=99):
        return [s["name"] for s in self.sigs if s["depth"] <= deep and s["name"].startswith(prefix)]


BASE = {"bin": (r"0b[01]+", 2), "hex": (r"0x[0-9a-fA-F]+", 16), "dec": (r"\d+", 10)}


WIDE = 2 ** 40 + 1      # a signal of more bits: each value of the specification stands for this many times it


def shown(w, base, v, wide):
    if not wide:
        return [w, base, v]
    return [w - 40, base, v // WIDE if v % WIDE == 0 else -1]


def parse(c, out, wide):
    """What a command has printed: values with their width, or names."""
    lines = [x for x in out.splitlines() if x.strip()]
    res = []
    for x in lines:
        if c["a"] == "list" and c["ok"]:
            res.append([x.split()[-1]])
        elif c["a"] == "print":
            m = re.search(r"width: *(\d+)", x)
            if m:
                t = x.split()[-1]
                b = [k for k, (p, _) in BASE.items() if re.fullmatch(p, t)]
                res.append(shown(int(m.group(1)), b[0], int(t, BASE[b[0]][1]), wide) if b else [int(m.group(1)), "?", 0])
    return len(lines), res


def run_program(prog):
    rec = common.new_recorder()
    dev = Dev(prog["sigs"])
    dbg = tdebug.get(dev) if prog.get("via", 0) % 2 else tdebug.PdbToffee(dev)
    n = len(prog["sigs"])
    cmds = [c if "line" in c else dict(c, line=line(c)) for c in prog["cmds"]]
    if prog.get("via", 0) % 3 == 2:
        dbg = tdebug.get(dut=dev)
    dbg2 = tdebug.get(dev)      # another debugger for the same device
    for i, c in enumerate(cmds):
        e = {"a": c["a"], "n": c["n"], "v": c["v"], "s": c["s"], "ok": c["ok"]}
        buf, stop = io.StringIO(), 0
        if c["a"] == "poke":
            o = dev.obj[c["n"]]
            o.val = o.val if o.forced else c["v"]
        else:
            d = dbg2 if prog.get("via", 0) % 5 == 4 and i % 2 else dbg
            d.stdout = buf
            with contextlib.redirect_stdout(buf):
                try:
                    stop = 1 if d.onecmd(c["line"]) else 0
                except Exception:  # noqa: BLE001
                    stop = 2
        said, out = parse(c, buf.getvalue(), any(s["name"] == c["n"] and s.get("wide") for s in prog["sigs"]))
        obs = [dev.obj[s["name"]] for s in prog["sigs"]]
        rec(**e, said=said, out=out, stop=stop, sum=dev.sum, cyc=dev.cyc, wave=dev.wave,
            vals=[o.val for o in obs], forced=[o.forced for o in obs],
            set=int(len(obs) == n and all(o.same and (o.mode == "normal" or o.forced) for o in obs)))
    rec(a="End")
    return {"prog": {"sigs": prog["sigs"]}, "ev": rec.ev}


def line(c):
    a = {"step": "tstep %(v)d", "flush": "tflush", "list": "tlist %(v)d %(s)s", "print": "tprint %(n)s %(s)s",
         "set": "tset %(n)s %(v)d", "force": "tforce %(n)s %(v)d", "release": "trelease %(n)s", "poke": ""}[c["a"]]
    return (a % c).strip()


def run(sc):
    return [run_program(p) for p in sc["runs"]]


def partial(sc, ev, kind):
    return {"prog": {"sigs": sc["runs"][0]["sigs"]}, "ev": [{"a": kind}]}
