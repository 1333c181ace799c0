"""Runs TLC on the specifications of /verif/spec."""
import json, os, re, shutil, subprocess, tempfile, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TLCError(Exception):
    pass


class Result:
    def __init__(self):
        self.states = 0        # distinct states
        self.transitions = 0   # states generated
        self.printed = []      # JSON values printed by the specification
        self.ok = False
        self.text = ""
        self.wall = 0.0
        self.violated = None


def run(module, cfg=None, env=None, workers=4, timeout=800, extra=(), heap="4g",
        constants=None, cfg_text=None, raise_error=True):
    """Runs TLC on spec/<module>.tla with spec/<cfg> (default <module>.cfg)."""
    tmp = tempfile.mkdtemp(prefix="tlc.")
    try:
        cfgpath = os.path.join(SPEC, cfg or module + ".cfg")
        if cfg_text is not None:
            cfgpath = os.path.join(tmp, module + ".cfg")
            with open(cfgpath, "w") as f:
                f.write(cfg_text)
        cmd = ["java", "-Djava.io.tmpdir=" + tmp, "-Xmx" + heap, "-Xss16m", "-XX:+UseParallelGC", "-cp", CP,
               "-Dtlc2.tool.impl.Tool.probabilistic=false",
               "-DTLA-Library=" + SPEC,
               "tlc2.TLC", "-config", cfgpath, "-workers", str(workers),
               "-metadir", os.path.join(tmp, "meta"), "-noGenerateSpecTE", "-nowarning",
               *extra, os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ)
        e.update(env or {})
        t0 = time.time()
        try:
            p = subprocess.run(cmd, cwd=tmp, env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise TLCError(f"TLC on {module} did not finish in {timeout} s")
        r = Result()
        r.wall = time.time() - t0
        r.text = p.stdout
        for line in p.stdout.splitlines():
            if line.startswith('"') and line.endswith('"'):
                try:
                    r.printed.append(json.loads(json.loads(line)))
                except ValueError:
                    pass
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", p.stdout)
        if m:
            r.transitions, r.states = int(m[-1][0]), int(m[-1][1])
        r.ok = p.returncode == 0 and "Model checking completed. No error" in p.stdout
        m = re.search(r"(?:Invariant|property|Action property) (\S+) is violated", p.stdout)
        if m:
            r.violated = m.group(1)
        if raise_error and not r.ok and r.violated is None and "simulate" not in " ".join(extra):
            tail = "\n".join(x for x in p.stdout.splitlines() if not x.startswith('"'))[-3000:]
            raise TLCError(f"TLC on {module} failed ({p.returncode}):\n{tail}")
        return r
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
