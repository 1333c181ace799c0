------------------------------- MODULE Delay -------------------------------
(***************************************************************************)
(* Delayers (delay.py).  After step c a delayer with delay d shows what    *)
(* its signal had settled to before step c - d, and nothing if it did not  *)
(* exist before that step.                                                 *)
(* P.pins: number of signals, all 0 at first.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

None == -1

DelayInit(P) == [now |-> 0,
                 val |-> [p \in 1..P.pins |-> 0],
                 hist |-> [p \in 1..P.pins |-> <<>>],   \* hist[p][c]: before step c
                 dl |-> <<>>,                           \* delayers: pin, delay, born
                 ended |-> FALSE]

(* What delayer d shows after step s.  The signal of a delayer may be an   *)
(* earlier delayer, numbered from P.pins + 1: the delays add up.           *)
RECURSIVE ShowsAt(_, _, _)
ShowsAt(st, d, s) ==
  LET x == st.dl[d]
      c == s - x.delay
  IN IF c <= x.born THEN None
     ELSE IF x.pin \in DOMAIN st.hist THEN st.hist[x.pin][c]
     ELSE ShowsAt(st, x.pin - Len(st.val), c)
Shows(st, d) == ShowsAt(st, d, st.now)

(* Events: Write p v; New (the next delayer) p v=delay; Read p=delayer v; Step; End *)
Guard(P, st, e) ==
  IF st.ended THEN {"after_end"}
  ELSE
  CASE e.a = "Read" -> IF e.v = Shows(st, e.p) THEN {}
                       ELSE IF Shows(st, e.p) = None THEN {"delay_early"}
                       ELSE IF e.v = None THEN {"delay_missing"} ELSE {"delay_value"}
    [] e.a \in {"Write", "New", "Step"} -> {}
    [] e.a = "End" -> IF e.v = 0 THEN {} ELSE {"end_result"}
    [] OTHER -> {"hang"}

Effect(P, st, e) ==
  IF st.ended THEN st
  ELSE
  CASE e.a = "Write" -> [st EXCEPT !.val[e.p] = e.v]
    [] e.a = "New" -> [st EXCEPT !.dl = Append(@, [pin |-> e.p, delay |-> e.v, born |-> st.now])]
    [] e.a = "Step" -> [st EXCEPT !.now = @ + 1, !.hist = [p \in DOMAIN @ |-> Append(@[p], st.val[p])]]
    [] e.a = "End" -> [st EXCEPT !.ended = TRUE]
    [] OTHER -> st
=============================================================================
