"""Writes known-findings.txt from the fix: commits of /repo (run by hand)."""
import subprocess
P = """C01 C03 C01 C16 C10 C10 C10 C10 C10 C10 C06 C04 C11 C04 C13 C13 C13 C02 C12 C15 C14 C14 C12 C12 C12 C18 C17 C17 C19 C20 C03""".split()
T = """a step was made while a cancelled task was still cleaning up
hooks that were pending when a run failed ran in the next run
a step was made while tasks woken by a monitor hook could still run
with hooks in a cycle (or several callbacks) a delayer was shifted more than once per cycle
unattach raised or left hooks behind; re-attaching a model failed
a hook left unmatched was accepted because an earlier attach had matched it
after a failed attach the hooks of the model still ran
an AgentPort named differently from its agent was rejected (or accepted unmatched)
a hook or port listing an agent and one of its methods was rejected
a hook naming an env attribute that is no agent was accepted
priority/schedule-order overrides of one driver call leaked into concurrent calls
a monitor method that raises was silently lost: the test passed
Executor(exit="any") hung when the first completed group failed
the failure of an executor group that is never waited for was lost
two bundles of one class shared the bundles of a bundle list
after rebinding, signal lists, sub-bundles and the clock event stayed with the old DUT
a bundle bound again issued each request several times per step
step() raised for a bundle whose signals are all in bundle lists
warnings about unconnected signals of a signal list named the wrong signal
process_requests left the last request behind when its condition was not met
assign removed "*" from the caller's dictionary
assign rejected the flat names vec[0].a that as_dict returns
detect_specific_connectivity answered True for a longer name
rules of dictionary binds were matched against the key instead of the pin
rules of signals in signal lists were not found
PLRU selected ways that do not exist for a number of ways that is no power of two
stop_sample was shadowed by a flag of the same name and could not be called
a single bin for a watch point without a name was rejected
with two handlers the id of a log record was consumed by the first
the intelligent generator lost signals nested below a name that is itself a signal
the clock was stepped an unpredictable number of times after the end of the test""".split("\n")
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
fx = [x for x in log if x.split(" ", 1)[1].startswith("fix:")]
extra = []   # (property, text) of later fixes, in order
for ln in open("/verif/tools/more-fixes.txt"):
    if ln.strip():
        extra.append(ln.strip().split(" ", 1))
P += [e[0] for e in extra]; T += [e[1] for e in extra]
assert len(P) == len(T) == len(fx), (len(P), len(T), len(fx))
with open("/verif/known-findings.txt", "w") as f:
    f.write("# fixed: defects of the original code that a fix: commit in /repo repairs; they suppress nothing.\n"
            "# finding: defects that are still there (none).\n")
    for p, t, c in zip(P, T, fx):
        f.write(f"fixed: property={p} {c.split()[0]} {t}\n")
