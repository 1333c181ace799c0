-------------------------------- MODULE Trig --------------------------------
(***************************************************************************)
(* Clock waits and triggers (triggers.py, Bundle.step).                    *)
(*                                                                         *)
(* The DUT drives waveforms: P.waves[p][c + 1] is the value of pin p after *)
(* c steps.  P.ws is a sequence of waiting tasks, each a sequence of       *)
(* operations [k, pins, n, v]:                                             *)
(*   clk      n cycles on some object                                      *)
(*   value    until pin = v, at least n cycles after the call              *)
(*   allvalid until all pins are non-zero, at least n cycles after         *)
(*   cond     until pins[1] >= v, at least n cycles after                  *)
(*   change, rising, falling                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

At(P, p, c) == P.waves[p][IF c < Len(P.waves[p]) THEN c + 1 ELSE Len(P.waves[p])]

(* The documented condition of an operation called in cycle c0, in cycle c *)
Holds(P, o, c0, c) ==
  CASE o.k = "clk"      -> c - c0 = o.n
    [] o.k = "value"    -> c - c0 >= o.n /\ At(P, o.pins[1], c) = o.v
    [] o.k = "allvalid" -> c - c0 >= o.n /\ \A i \in DOMAIN o.pins : At(P, o.pins[i], c) # 0
    [] o.k = "cond"     -> c - c0 >= o.n /\ At(P, o.pins[1], c) >= o.v
    [] o.k = "change"   -> At(P, o.pins[1], c) # At(P, o.pins[1], c0)
    [] o.k = "rising"   -> c > c0 /\ At(P, o.pins[1], c - 1) = 0 /\ At(P, o.pins[1], c) # 0
    [] o.k = "falling"  -> c > c0 /\ At(P, o.pins[1], c - 1) # 0 /\ At(P, o.pins[1], c) = 0

(* The cycle in which an operation called in cycle c0 is to return, -1 if  *)
(* that is after cycle n                                                   *)
Returns(P, o, c0, n) ==
  LET S == {c \in c0..n : Holds(P, o, c0, c)}
  IN IF S = {} THEN -1 ELSE CHOOSE c \in S : \A d \in S : c <= d

TrigInit(P) == [now |-> 0,
                act |-> [w \in DOMAIN P.ws |-> 0],    \* the operation going on
                c0  |-> [w \in DOMAIN P.ws |-> 0],
                done |-> [w \in DOMAIN P.ws |-> 0],   \* operations completed
                ended |-> FALSE]

Label(o, s) == IF o.k = "clk" THEN "clk_" \o s ELSE "trig_" \o s

(* Events: Call w i, Ret w i, Step, End *)
Guard(P, st, e) ==
  IF st.ended THEN {"after_end"}
  ELSE
  CASE e.a = "Call" ->
         IF st.act[e.t] = 0 /\ st.done[e.t] = e.i - 1 THEN {} ELSE {"op_unexpected"}
    [] e.a = "Ret" ->
         IF st.act[e.t] # e.i THEN {"op_unexpected"}
         ELSE LET o == P.ws[e.t][e.i]
                  r == Returns(P, o, st.c0[e.t], st.now)
              IN IF r = -1 THEN {Label(o, "early")}
                 ELSE IF r < st.now THEN {Label(o, "late")} ELSE {}
    [] e.a = "Step" ->
         UNION { IF st.act[w] # 0 /\ Holds(P, P.ws[w][st.act[w]], st.c0[w], st.now)
                 THEN {Label(P.ws[w][st.act[w]], "late")} ELSE {} : w \in DOMAIN P.ws }
    [] e.a = "End" -> IF e.i = 0 THEN {} ELSE {"end_result"}
    [] OTHER -> {"hang"}

Effect(P, st, e) ==
  IF st.ended THEN st
  ELSE
  CASE e.a = "Call" -> [st EXCEPT !.act[e.t] = e.i, !.c0[e.t] = st.now]
    [] e.a = "Ret"  -> [st EXCEPT !.act[e.t] = 0, !.done[e.t] = e.i]
    [] e.a = "Step" -> [st EXCEPT !.now = @ + 1]
    [] OTHER -> [st EXCEPT !.ended = TRUE]
=============================================================================
