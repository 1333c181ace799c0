"""Recorder for the Gen specification."""
import importlib
import json
import logging
import os
import re
import sys
import tempfile

import common
from common import DUT, REPO, toffee
from toffee import Bundle

sys.path.insert(0, os.path.join(REPO, "scripts"))
code_gen = importlib.import_module("bundle_code_gen")
intel_gen = importlib.import_module("bundle_code_intel_gen")


class Missing(logging.Handler):
    def __init__(self):
        super().__init__()
        self.names = []

    def emit(self, record):
        m = re.search(r'The signal that can be connected to "(.*?)" is not found', record.getMessage())
        if m:
            self.names.append(m[1])


def source(prog, dut):
    m, ru = prog["mode"], prog["rule"]
    kw = {} if prog["width"] == 0 else {"max_width": prog["width"]}
    if m == "prefix":
        if ru["pre"] == "" and prog["width"] % 2 == 0:
            return code_gen.gen_bundle_code_from_prefix(prog["name"], dut, **kw)
        return code_gen.gen_bundle_code_from_prefix(prog["name"], dut, ru["pre"], **kw)
    if m == "dict":
        return code_gen.gen_bundle_code_from_dict(prog["name"], dut, {x["key"]: x["pin"] for x in ru["map"]}, **kw)
    if m == "regex":
        return code_gen.gen_bundle_code_from_regex(prog["name"], dut, ru["text"], **kw)
    with tempfile.TemporaryDirectory() as d:
        src, out = os.path.join(d, "in.json"), os.path.join(d, "out.py")
        json.dump(prog["json"], open(src, "w"))
        intel_gen.main(src, out)
        return open(out).read()


def run_program(prog):
    rec = common.new_recorder()
    warn = Missing()
    toffee.setup_logging(toffee.WARNING, console_display=False)
    toffee.get_logger().addHandler(warn)
    dut = DUT(prog["pins"])
    text = source(prog, dut)
    ns = {}
    try:
        exec(compile(text, "generated", "exec"), ns)
        if prog["mode"] == "tree":
            cls = [v for v in ns.values() if isinstance(v, type) and issubclass(v, Bundle) and v.__module__ != "toffee.bundle"]
            b = cls[-1]()          # the class of the whole is the last one
        else:
            b = ns["bundle"]
            if type(b).__name__ != prog["name"]:
                raise NameError(type(b).__name__)
        rec(a="Made", valid=1)
    except Exception as e:
        rec(a="Made", valid=0, why=repr(e))
        rec(a="End")
        return {"prog": public(prog), "ev": rec.ev}
    warn.names.clear()
    b.bind(dut)
    for k, (name, sig) in enumerate(b.all_signals(), 1):
        before = {p: getattr(dut, p).value for p in prog["pins"]}
        try:
            sig.value = k
        except AttributeError:
            pass
        ch = [p for p in prog["pins"] if getattr(dut, p).value != before[p]]
        rec(a="Conn", leaf=name, pin=ch[0] if len(ch) == 1 else "" if not ch else "several")
    rec(a="Bound", missing=list(warn.names), unc=list(Bundle.detect_unconnected_signals(dut)),
        multi=list(Bundle.detect_multiple_connections(dut)))
    rec(a="End")
    common.quiet_logging()
    return {"prog": public(prog), "ev": rec.ev}


def public(prog):
    return {k: prog[k] for k in ("mode", "rule", "pins", "names")}


def run(sc):
    return [run_program(sc)]


def partial(sc, ev, kind):
    return {"prog": public(sc), "ev": [{"a": kind}]}
