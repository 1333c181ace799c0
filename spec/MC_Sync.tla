------------------------------ MODULE MC_Sync ------------------------------
(***************************************************************************)
(* The algorithm behind the synchronisation: activities run until nothing  *)
(* can go on, then all pending hooks run in one batch sorted by priority   *)
(* (stable), then again, until nothing is pending; only then is the clock  *)
(* stepped.  TLC explores every interleaving of the activities for every   *)
(* small configuration of calls, hooks and a monitor, and checks that the  *)
(* algorithm never breaks a clause of the contract (Sync!Guard), that      *)
(* every hook of every call that got so far ran exactly once and was       *)
(* compared, and that the run ends.  The configurations are printed and    *)
(* run on the real code.                                                   *)
(***************************************************************************)
EXTENDS Sync, TLC, Json

CONSTANTS NC, NH, Prios, MaxDur, MonVals, MaxLen

VARIABLES prog, st, todo, batch, phase, until, bad, nmon, past
vars == <<prog, st, todo, batch, phase, until, bad, nmon, past>>
P == prog

Call(c, d) == [path |-> "a1.d1", sig |-> 1, args |-> <<ToString(c)>>, kw |-> <<>>, prio |-> -1, order |-> "",
               ret |-> "5", plain |-> TRUE, dur |-> d]
Hook(h, k, p, o, r, name) ==
  [kind |-> k, paths |-> IF k = "agent" THEN <<"a1.d1", "a1.m1">> ELSE <<"a1.d1">>,
   prio |-> p, order |-> o, model |-> h, rets |-> r, name |-> name,
   deco |-> IF k = "agent" THEN [agent_name |-> "a1"] ELSE [driver_path |-> "a1.d1"]]

Rets(h, x) ==   \* x = 0: all equal; x = 1: none; x > 1: the first hook differs for call x - 1
  [c \in 1..NC |-> IF x = 1 /\ h = 1 THEN "None" ELSE IF h = 1 /\ x - 1 = c THEN "6" ELSE "5"]

Programs ==
  { [calls |-> [c \in 1..NC |-> Call(c, ds[c])],
     hooks |-> [h \in 1..NH |-> Hook(h, ks[h], ps[h], os[h], Rets(h, x), IF h = 1 THEN "h1" ELSE "h2")],
     mons |-> <<[path |-> "a1.m1", script |-> <<<<0, mv>>>>]>>,
     ports |-> <<>>, execs |-> <<>>, opaque |-> FALSE, len |-> n] :
       ds \in [1..NC -> 0..MaxDur], ks \in [1..NH -> {"driver", "agent"}], ps \in [1..NH -> Prios],
       os \in [1..NH -> {"model_first", "dut_first"}], x \in 0..(NC + 1), mv \in MonVals, n \in 1..MaxLen }

MCInit == /\ prog \in Programs
          /\ st = SyncInit(prog)
          /\ todo = <<>>               \* pending hooks in the order of their requests
          /\ batch = <<>>              \* the batch that is running
          /\ phase = "env"
          /\ until = [c \in Calls(prog) |-> 0]
          /\ bad = {}
          /\ nmon = 0
          /\ past = {}                 \* the hooks that have run, ever

Emit(e) == /\ bad' = bad \cup Guard(P, st, e)
           /\ st' = Effect(P, st, e)

Tasks(p) == [c \in 1..(NC + 1) |->
               IF c = 1 THEN <<[k |-> "clk", n |-> p.len]>> ELSE <<[k |-> "call", n |-> c - 1]>>]

Env == /\ phase = "env"
       /\ PrintT(ToJson([prog EXCEPT !.len = 0] @@ [tasks |-> Tasks(prog)]))
       /\ Emit([a |-> "Env"])
       /\ phase' = "settle"
       /\ UNCHANGED <<prog, todo, batch, until, nmon, past>>

New(s1) == SetToSeq({o \in s1.pend : o \notin st.pend})

DoCall(c) == /\ st.call[c] = "no" /\ st.main = "run" /\ phase = "settle"
             /\ Emit([a |-> "Call", c |-> c])
             /\ todo' = todo \o New(st')
             /\ UNCHANGED <<prog, batch, phase, until, nmon, past>>

DoDut(c) == /\ phase = "settle" /\ st.call[c] = "req"
            /\ ~\E o \in st.pend : o.c = c
            /\ Emit([a |-> "Dut", c |-> c, kw |-> Bound(P, c)])
            /\ until' = [until EXCEPT ![c] = st.now + P.calls[c].dur]
            /\ UNCHANGED <<prog, todo, batch, phase, nmon, past>>

DoEnd(c) == /\ phase = "settle" /\ st.call[c] = "dut" /\ until[c] <= st.now
            /\ Emit([a |-> "DutEnd", c |-> c])
            /\ todo' = todo \o New(st')
            /\ UNCHANGED <<prog, batch, phase, until, nmon, past>>

DoRet(c) == /\ phase = "settle" /\ st.call[c] = "end"
            /\ Emit([a |-> "Ret", c |-> c, v |-> P.calls[c].ret])
            /\ UNCHANGED <<prog, todo, batch, phase, until, nmon, past>>

DoCmp(ch) == /\ phase = "settle" /\ ch \in Due(P, st) \ st.cmp
             /\ Emit([a |-> "Cmp", c |-> ch[1], h |-> ch[2], k |-> ch[1]])
             /\ phase' = IF Differs(P, ch[1], ch[2]) THEN "fail" ELSE phase
             /\ UNCHANGED <<prog, todo, batch, until, nmon, past>>

DoMon == /\ phase = "settle" /\ ~st.inm[1] /\ st.lastm[1] < st.now
         /\ Emit([a |-> "MonCall", m |-> 1])
         /\ UNCHANGED <<prog, todo, batch, phase, until, nmon, past>>

DoMonRet == /\ phase = "settle" /\ st.inm[1]
            /\ Emit([a |-> "MonRet", m |-> 1, v |-> IF nmon = 0 THEN P.mons[1].script[1][2] ELSE "None"])
            /\ nmon' = nmon + 1
            /\ todo' = todo \o New(st')
            /\ UNCHANGED <<prog, batch, phase, until, past>>

DoMain == /\ phase = "settle" /\ st.main = "run" /\ st.now = P.len
          /\ Emit([a |-> "Main", v |-> 0])
          /\ UNCHANGED <<prog, todo, batch, phase, until, nmon, past>>

Runnable ==
  \/ \E c \in Calls(P) : \/ st.call[c] = "no" /\ st.main = "run"
                         \/ st.call[c] = "req" /\ ~\E o \in st.pend : o.c = c
                         \/ st.call[c] = "dut" /\ until[c] <= st.now
                         \/ st.call[c] = "end"
  \/ Due(P, st) \ st.cmp # {}
  \/ st.inm[1] \/ st.lastm[1] < st.now
  \/ st.main = "run" /\ st.now = P.len

Sorted(s) == SortSeq([i \in DOMAIN s |-> [o |-> s[i], i |-> i]],
                     LAMBDA a, b : a.o.prio < b.o.prio \/ (a.o.prio = b.o.prio /\ a.i < b.i))

StartBatch == /\ phase = "settle" /\ ~Runnable /\ todo # <<>>
              /\ batch' = [i \in DOMAIN todo |-> Sorted(todo)[i].o]
              /\ todo' = <<>>
              /\ phase' = "batch"
              /\ UNCHANGED <<prog, st, until, bad, nmon, past>>

RunHook == /\ phase = "batch" /\ batch # <<>>
           /\ LET o == Head(batch) IN
              /\ Emit([a |-> "Hook", h |-> o.h, c |-> o.c, m |-> o.m, v |-> o.v,
                       path |-> IF P.hooks[o.h].kind # "agent" THEN ""
                                ELSE IF o.m > 0 THEN P.mons[o.m].path ELSE P.calls[o.c].path,
                       args |-> IF o.m > 0 THEN <<>> ELSE P.calls[o.c].args,
                       kw |-> IF o.m = 0 /\ P.hooks[o.h].kind = "agent" THEN Bound(P, o.c) ELSE <<>>])
              /\ past' = past \cup {<<o.h, o.c, o.m>>}
           /\ batch' = Tail(batch)
           /\ phase' = IF Tail(batch) = <<>> THEN "settle" ELSE "batch"
           /\ UNCHANGED <<prog, todo, until, nmon>>

DoStep == /\ phase = "settle" /\ ~Runnable /\ todo = <<>> /\ ~st.final
          /\ Emit([a |-> "Step"])
          /\ phase' = IF st.main = "ret" THEN "end" ELSE "settle"
          /\ UNCHANGED <<prog, todo, batch, until, nmon, past>>

DoEndRun == /\ phase \in {"end", "fail"}
            /\ Emit([a |-> "End", v |-> IF phase = "end" THEN 0 ELSE 3, errs |-> 0])
            /\ phase' = "done"
            /\ UNCHANGED <<prog, todo, batch, until, nmon, past>>

Next == \/ Env \/ DoMon \/ DoMonRet \/ DoMain \/ StartBatch \/ RunHook \/ DoStep \/ DoEndRun
        \/ \E c \in Calls(P) : DoCall(c) \/ DoDut(c) \/ DoEnd(c) \/ DoRet(c)
        \/ \E ch \in Due(P, st) : DoCmp(ch)

Rest == phase = "done" /\ UNCHANGED vars

MCSpec == MCInit /\ [][Next \/ Rest]_vars /\ WF_vars(Next)

(* The algorithm meets the contract *)
Contract == bad = {}

(* At the end every call that has returned has been seen by every hook and *)
(* has been compared with every result                                     *)
Complete == phase = "done" /\ st.doom = {} =>
  \A c \in Calls(P) : st.call[c] \in {"end", "ret"} =>
    /\ \A h \in Matching(P, c) : <<h, c, 0>> \in past
    /\ \A h \in Matching(P, c) : Result(P, c, h) # "None" => <<c, h>> \in st.cmp

(* A difference that was reached makes the run fail *)
Noticed == phase = "done" /\ st.doom = {} =>
  \A c \in Calls(P), h \in Hooks(P) : st.call[c] \in {"end", "ret"} /\ h \in Matching(P, c) => ~Differs(P, c, h)

Ends == <>(phase = "done")

=============================================================================
