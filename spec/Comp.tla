-------------------------------- MODULE Comp --------------------------------
(***************************************************************************)
(* Components (asynchronous.py: Component; a reference model is one): the  *)
(* main function of a component is an activity of its own.  It begins with *)
(* the first clock step after the component was made, exactly once, and it *)
(* is cancelled with everything else when the run ends.                    *)
(*                                                                         *)
(* A program P: comps  sequence of the main functions' operations          *)
(*              body   operations of the test body                         *)
(*              pre, post  components made before, and after, the clock is *)
(*                     started, before the body                            *)
(* An operation is [k, n]: make component n, clk n cycles, nop (n turns of *)
(* the event loop), or start, with which the body starts the clock itself. *)
(* Activity 0 is the test body, c the main function of component c.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Comps(P) == DOMAIN P.comps
Ops(P, t) == IF t = 0 THEN P.body ELSE P.comps[t]

CompInit(P) ==
  [ now   |-> 0,
    made  |-> [c \in Comps(P) |-> -1],      \* the cycle in which it was made
    run   |-> [t \in {0} \cup Comps(P) |-> IF t = 0 THEN "on" ELSE "no"],   \* no, on, fin
    pc    |-> [t \in {0} \cup Comps(P) |-> 1],
    since |-> [t \in {0} \cup Comps(P) |-> 0],   \* cycle in which the operation began
    clock |-> FALSE,                        \* the clock has been started
    body  |-> FALSE,                        \* the test body has returned
    kill  |-> FALSE,                        \* the end of the run has begun to cancel
    final |-> FALSE,                        \* the last step has been made
    ended |-> FALSE ]

Cur(P, st, t) == IF st.pc[t] <= Len(Ops(P, t)) THEN Ops(P, t)[st.pc[t]] ELSE [k |-> "ret", n |-> 0]

(* It has to begin in this cycle                                           *)
Due(st, c) == st.made[c] >= 0 /\ st.made[c] < st.now /\ st.run[c] = "no"

(* It can go on in this cycle                                              *)
Ready(P, st, t) == st.run[t] = "on" /\ (Cur(P, st, t).k = "clk" => st.now - st.since[t] >= Cur(P, st, t).n)

Quiet(P, st) == \A t \in {0} \cup Comps(P) : ~Ready(P, st, t) /\ (t > 0 => ~Due(st, t))

(* Events: Clock; Make c; Main c; Did t (the current operation is          *)
(* complete); Fin t canc; Step; End v                                      *)
Guard(P, st, e) ==
  IF st.ended THEN {"after_end"}
  ELSE
  (IF st.final /\ e.a # "End" THEN {"comp_after_end"} ELSE {})
  \cup
  (CASE e.a = "Clock" -> IF st.clock THEN {"op_unexpected"} ELSE {}
    [] e.a = "Make" -> IF st.made[e.c] # -1 THEN {"op_unexpected"} ELSE {}
    [] e.a = "Main" ->
         (IF st.run[e.c] # "no" THEN {"comp_twice"} ELSE {})
         \cup (IF st.made[e.c] = -1 \/ st.made[e.c] >= st.now THEN {"comp_early"} ELSE {})
         \cup (IF st.kill THEN {"comp_after_end"} ELSE {})
    [] e.a = "Did" ->
         (IF st.run[e.t] # "on" THEN {"op_unexpected"} ELSE {})
         \cup (IF Cur(P, st, e.t).k = "clk" /\ st.now - st.since[e.t] # Cur(P, st, e.t).n THEN {"comp_clk"} ELSE {})
    [] e.a = "Fin" ->
         IF st.run[e.t] # "on" THEN {"op_unexpected"}
         ELSE IF e.canc = 0 THEN (IF Cur(P, st, e.t).k # "ret" THEN {"op_unexpected"} ELSE {})
         ELSE (IF ~st.body THEN {"comp_killed"} ELSE {})
              \cup (IF \E c \in Comps(P) : Due(st, c) THEN {"comp_late"} ELSE {})
    [] e.a = "Step" ->
         (IF \E c \in Comps(P) : Due(st, c) THEN {"comp_late"} ELSE {})
         \cup (IF \E t \in {0} \cup Comps(P) : Ready(P, st, t) THEN {"comp_step"} ELSE {})
         \cup (IF st.body /\ \E c \in Comps(P) : st.run[c] = "on" THEN {"comp_alive"} ELSE {})
         \cup (IF ~st.clock THEN {"comp_step"} ELSE {})
    [] e.a = "End" ->
         IF e.v # 0 THEN {"comp_fail"}
         ELSE IF ~st.body \/ (st.clock /\ ~st.final) THEN {"comp_end"} ELSE {}
    [] OTHER -> {"hang"})

Next1(st, t) == [st EXCEPT !.pc[t] = @ + 1, !.since[t] = st.now]

Effect(P, st, e) ==
  IF st.ended THEN st
  ELSE
  CASE e.a = "Clock" -> [st EXCEPT !.clock = TRUE]
    [] e.a = "Make" -> [st EXCEPT !.made[e.c] = st.now]
    [] e.a = "Main" -> [st EXCEPT !.run[e.c] = "on", !.since[e.c] = st.now]
    [] e.a = "Did"  -> Next1(st, e.t)
    [] e.a = "Fin"  -> [st EXCEPT !.run[e.t] = "fin", !.kill = @ \/ e.canc = 1, !.body = @ \/ e.t = 0]
    [] e.a = "Step" -> [st EXCEPT !.now = @ + 1, !.final = st.body]
    [] OTHER -> [st EXCEPT !.ended = TRUE]
=============================================================================
