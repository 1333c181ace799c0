"""Recorder for the Log specification.  Files go to the scratch directory of the
worker."""
import io, os, re

import common
from common import toffee
from toffee import logger as lg

FMT = {2: "%(levelname)s|%(message)s|%(log_id)s", 3: "%(message)s"}
NAMED = {10: "debug", 20: "info", 30: "warning", 40: "error", 50: "critical"}
SCRATCH = os.environ.get("VERIF_SCRATCH", "/tmp")
TB = re.compile(r"Traceback \(most recent call last\):.*?ValueError: odd", re.S)
POS = re.compile(r"@(?:d_log|logger)\.py:\d+")


def norm(s):
    return TB.sub("TB", POS.sub("@F", s)).replace("\x1b", "^").replace("\n", "^n").replace("\t", "^t")


class Text:
    """A message that is no string."""

    def __init__(self, s):
        self.s = s

    def __str__(self):
        return self.s


def message(o, how):
    """The message in force and its arguments."""
    msg = o["msg"].replace("^n", "\n")
    if how == 0:
        return msg[:-1] + "%s", (msg[-1],)
    if how == 1 and msg[-1].isdigit() and "%" not in msg:
        return msg[:-1] + "%d", (int(msg[-1]),)
    if how == 2 and "%" not in msg:
        return "%(head)s" + msg[1:], ({"head": msg[0]},)
    if how == 3:
        return Text(msg), ()
    return msg, ()


def run_program(prog):
    rec = common.new_recorder()
    con = io.StringIO()
    lg.screen_handler.setStream(con)
    lg.stats_handler.serverity_stats.clear()
    lg.stats_handler.id_stats.clear()
    toffee.setup_logging()
    paths = [os.path.join(SCRATCH, f"log{os.getpid()}_{k}") for k in range(prog["files"])]
    for p in paths:
        open(p, "w").close()
    via = prog.get("via", 0)
    used = {o["id"] for o in prog["ops"]} - {""}
    for k, o in enumerate(prog["ops"]):
        at = con.tell()
        if o["a"] == "Setup":
            kw = {"log_level": o["lvl"], "console_display": bool(o["con"])}
            if o["file"]:
                kw["log_file"] = paths[o["file"] - 1]
            if o["fmt"] != 1:
                kw["format"] = FMT[o["fmt"]]
            toffee.setup_logging(**kw)
        elif o["a"] == "Summary":
            lg.summary()
        else:
            kw = {"extra": {"log_id": int(o["id"]) if o["id"].isdigit() else o["id"]}} if o["id"] or (via + k) % 5 == 0 else {}
            named = NAMED.get(o["lvl"])
            x = (via + k) % 4
            msg, args = message(o, (via + k) % 7)
            if "%" in o["msg"] and args:
                msg, args = o["msg"].replace("^n", "\n"), ()
            if o["tb"]:         # with the exception that is being handled
                try:
                    raise ValueError("odd")
                except ValueError:
                    if x % 2 and o["lvl"] == 40:
                        lg.exception(msg, *args, **kw)
                    else:
                        lg.log(o["lvl"], msg, *args, exc_info=True, **kw)
            elif named and x == 0:
                getattr(lg, named)(msg, *args, **kw)
            elif named and x == 1:
                getattr(toffee.get_logger(), named)(msg, *args, **kw)
            elif x == 2:
                lg.log(o["lvl"], msg, *args, **kw)
            else:
                toffee.get_logger().log(o["lvl"], msg, *args, **kw)
        con.seek(at)
        new = con.read()
        files = []
        for p in paths:
            with open(p) as f:
                files.append(norm(f.read()))
        rec(out=norm(new), files=files,
            sev=[{"n": a, "c": b} for a, b in lg.stats_handler.serverity_stats.items()],
            ids=[{"n": str(a), "c": b} for a, b in lg.stats_handler.id_stats.items() if str(a) in used or a not in ("default", "default_id")],
            **o)
    rec(a="End")
    common.quiet_logging()
    return {"prog": {"files": prog["files"]}, "ev": rec.ev}


def run(sc):
    return [run_program(sc)]


def partial(sc, ev, kind):
    return {"prog": {"files": sc["files"]}, "ev": [{"a": kind}]}
