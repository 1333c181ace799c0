"""worker.py DOMAIN IN.json OUT.jsonl START - runs scenarios START.. of IN.json on
the code under test and appends one line {"i", "traces"} per scenario."""
import importlib, json, os, signal, sys, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common  # noqa: E402

CPU, WALL = 20, 60  # seconds per scenario: each takes milliseconds, but the machine may be busy


def main():
    domain, inp, out, start = sys.argv[1], sys.argv[2], sys.argv[3], int(sys.argv[4])
    scenarios = json.load(open(inp))
    common.quiet_logging()
    mod = importlib.import_module("d_" + domain)
    f = open(out, "a")
    state = {"i": start}

    def abort(kind):
        t = mod.partial(scenarios[state["i"]], common.REC.ev[:300], kind)
        f.write(json.dumps({"i": state["i"], "traces": [t], "aborted": kind}) + "\n")
        f.flush()
        os._exit(3)

    common._abort = abort
    for s in (signal.SIGALRM, signal.SIGPROF):
        signal.signal(s, lambda *_: abort("Hang"))
    for i in range(start, len(scenarios)):
        state["i"] = i
        signal.alarm(WALL)
        signal.setitimer(signal.ITIMER_PROF, CPU)
        try:
            traces = mod.run(scenarios[i])
        except BaseException as e:  # the code under test does not behave like itself any more
            traces = [mod.partial(scenarios[i], common.REC.ev[:300], "Crash")]
            traces[0]["crash"] = (repr(e) + traceback.format_exc())[-1500:]
        signal.alarm(0)
        signal.setitimer(signal.ITIMER_PROF, 0)
        f.write(json.dumps({"i": i, "traces": traces}) + "\n")
    f.close()


main()
