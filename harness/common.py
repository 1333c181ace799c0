"""Shared by all recorders: a fake DUT whose pins and clock record what reaches
them.  Imports the code under test from the repository's working tree."""
import os, sys

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True

import asyncio  # noqa: E402
import logging  # noqa: E402

import toffee  # noqa: E402
from toffee import *  # noqa: E402,F401,F403

assert os.path.abspath(toffee.__file__).startswith(os.path.abspath(REPO) + os.sep), toffee.__file__


class Runaway(BaseException):
    pass


class Recorder:
    """The events of the run that is going on."""

    limit = 20000

    def __init__(self):
        self.ev = []
        self.closed = False

    def __call__(self, **e):
        if not self.closed:
            self.ev.append(e)
            if len(self.ev) > self.limit:
                worker_abort("Runaway")


REC = Recorder()
_abort = None


def worker_abort(kind):
    _abort(kind)


def new_recorder():
    global REC
    REC.closed = True
    REC = Recorder()
    return REC


class MaxCycles(Exception):
    pass


class XData:
    def __init__(self, width=32, out=False):
        self.value = 0
        self.width = width
        self.out = out
        self.mode = None


class XPin:
    """Like picker's XPin: delegates to its xdata."""

    def __init__(self, name, event, log=None, width=32, out=False):
        self.__dict__["xdata"] = XData(width, out)
        self.__dict__["event"] = event
        self.__dict__["name_"] = name
        self.__dict__["log_"] = log

    @property
    def value(self):
        return self.xdata.value

    @value.setter
    def value(self, v):
        if self.log_ is not None:
            self.log_(self.name_, v)
        self.xdata.value = v

    def W(self):
        return self.xdata.width

    def IsOutIO(self):
        return self.xdata.out

    def AsImmWrite(self):
        self.xdata.mode = "imme"

    def AsRiseWrite(self):
        self.xdata.mode = "rise"

    def AsFallWrite(self):
        self.xdata.mode = "fall"

    def __getattr__(self, name):
        return getattr(self.__dict__["xdata"], name)

    def __setattr__(self, name, value):
        if name == "value":
            XPin.value.fset(self, value)
        elif name in self.__dict__:
            self.__dict__[name] = value
        else:
            setattr(self.xdata, name, value)


class DUT:
    """A clocked device: Step runs the rising-edge callbacks, then on_step."""

    def __init__(self, pins=(), maxcycles=None, on_step=None, log=None, widths=None, outs=()):
        self.event = asyncio.Event()
        self.cycles = 0
        self.maxcycles_ = maxcycles
        self.on_step_ = on_step
        self.ris_ = []
        for p in pins:
            setattr(self, p, XPin(p, self.event, log, (widths or {}).get(p, 32), p in outs))

    def StepRis(self, func, args=(), kwargs=None):
        self.ris_.append((func, args, kwargs or {}))

    def Step(self, n=1):
        for _ in range(n):
            if self.maxcycles_ is not None and self.cycles >= self.maxcycles_:
                raise MaxCycles()
            self.cycles += 1
            for f, a, k in list(self.ris_):
                f(self.cycles, *a, **k)
            if self.on_step_ is not None:
                self.on_step_(self.cycles)


def quiet_logging():
    toffee.setup_logging(toffee.CRITICAL + 1, console_display=False)
    logging.getLogger("asyncio").setLevel(logging.CRITICAL + 1)


def launch(test, env_handle=None, via=0):
    """The ways of running a test: toffee.run and, as it does, main_coro in an event loop of one's own."""
    if via % 3 != 1:
        return toffee.run(test, env_handle) if env_handle else toffee.run(test)
    if via % 2:
        return asyncio.run(toffee.main_coro(test, env_handle) if env_handle else toffee.main_coro(test))

    async def outer():
        return await toffee.main_coro(test, env_handle=env_handle)

    return asyncio.run(outer())
