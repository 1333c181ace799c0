------------------------------ MODULE MC_Trig ------------------------------
(***************************************************************************)
(* The triggers as they are built - loops that wait for the clock event    *)
(* and look at the pin - run against every waveform of length N + 1 over   *)
(* 0..MaxV.  The loops return exactly when the documented conditions say.  *)
(* Every waveform is printed with the cycles in which each kind of trigger *)
(* returns, to be run on the real code.                                    *)
(***************************************************************************)
EXTENDS Trig, TLC, Json, SequencesExt

CONSTANTS N, MaxV, MaxStart, MaxDelay

Ops == <<[k |-> "rising", n |-> 0, v |-> 0], [k |-> "falling", n |-> 0, v |-> 0],
         [k |-> "change", n |-> 0, v |-> 0]>>
       \o SetToSeq({[k |-> kk, n |-> d, v |-> 1] : kk \in {"value", "allvalid", "cond", "clk"}, d \in 0..MaxDelay})

Waits == SetToSeq({<<o, s>> : o \in ToSet(Ops), s \in 0..MaxStart})

Op(w) == [k |-> Waits[w][1].k, n |-> Waits[w][1].n, v |-> Waits[w][1].v, pins |-> <<1>>]
Start(w) == Waits[w][2]

VARIABLES wave, now, pc, left, old, ret
vars == <<wave, now, pc, left, old, ret>>

P == [waves |-> <<wave>>]
W == DOMAIN Waits
V == wave[now + 1]

MCInit == /\ wave \in [1..(N + 1) -> 0..MaxV]
          /\ now = 0
          /\ pc = [w \in W |-> "start"]
          /\ left = [w \in W |-> 0]
          /\ old = [w \in W |-> 0]
          /\ ret = [w \in W |-> -1]

(* One waiter from the moment it is woken until it waits for the event     *)
(* again or returns: [pc, left, old]                                       *)
Begin(w) == [pc |-> "loop", left |-> Op(w).n, old |-> V]

Poll(w, s) ==
  LET k == Op(w).k IN
  CASE k = "clk" -> IF s.left = 0 THEN [s EXCEPT !.pc = "ret"] ELSE [s EXCEPT !.left = @ - 1]
    [] k = "value"    -> IF s.left > 0 THEN [s EXCEPT !.left = @ - 1]
                         ELSE IF V = Op(w).v THEN [s EXCEPT !.pc = "ret"] ELSE s
    [] k = "allvalid" -> IF s.left > 0 THEN [s EXCEPT !.left = @ - 1]
                         ELSE IF V # 0 THEN [s EXCEPT !.pc = "ret"] ELSE s
    [] k = "cond"     -> IF s.left > 0 THEN [s EXCEPT !.left = @ - 1]
                         ELSE IF V >= Op(w).v THEN [s EXCEPT !.pc = "ret"] ELSE s
    [] k = "change"   -> IF V # s.old THEN [s EXCEPT !.pc = "ret"] ELSE s
    [] k = "rising"   -> IF s.old # 0 \/ V = s.old THEN [s EXCEPT !.old = V] ELSE [s EXCEPT !.pc = "ret"]
    [] k = "falling"  -> IF V # 0 \/ V = s.old THEN [s EXCEPT !.old = V] ELSE [s EXCEPT !.pc = "ret"]

Wake(w) ==
  LET s0 == [pc |-> pc[w], left |-> left[w], old |-> old[w]]
  IN CASE pc[w] = "start" -> IF now = Start(w) THEN Poll(w, Begin(w)) ELSE s0
       [] pc[w] = "loop"  -> Poll(w, s0)
       [] OTHER -> s0

VARIABLE phase
mvars == <<wave, now, pc, left, old, ret, phase>>

Settle == /\ phase = "run"
          /\ LET s == [w \in W |-> Wake(w)] IN
             /\ pc' = [w \in W |-> s[w].pc]
             /\ left' = [w \in W |-> s[w].left]
             /\ old' = [w \in W |-> s[w].old]
             /\ ret' = [w \in W |-> IF s[w].pc = "ret" /\ pc[w] # "ret" THEN now ELSE ret[w]]
          /\ phase' = "quiet"
          /\ UNCHANGED <<wave, now>>

Step == /\ phase = "quiet" /\ now < N
        /\ now' = now + 1
        /\ phase' = "run"
        /\ UNCHANGED <<wave, pc, left, old, ret>>

Done == /\ phase = "quiet" /\ now = N
        /\ PrintT(ToJson([wave |-> wave,
             ws |-> [w \in W |-> <<[k |-> "clk", pins |-> <<1>>, n |-> Start(w), v |-> 0], Op(w)>>]]))
        /\ phase' = "end"
        /\ UNCHANGED <<wave, now, pc, left, old, ret>>

MCSpec == MCInit /\ phase = "run" /\ [][Settle \/ Step \/ Done]_mvars

(* The loops return exactly in the first cycle in which the documented     *)
(* condition holds                                                         *)
Exact == phase # "run" =>
  \A w \in W : ret[w] = IF Start(w) > now THEN -1 ELSE Returns(P, Op(w), Start(w), now)
=============================================================================
