-------------------------------- MODULE Dbg --------------------------------
(***************************************************************************)
(* The commands of the debugger (debug.py) on a device: stepping the       *)
(* clock, writing, forcing and releasing internal signals, printing and    *)
(* listing them.                                                           *)
(*                                                                         *)
(* P.sigs: the internal signals, each [name, width, count, depth].  count: *)
(* the device adds one to it with each step unless it is forced.  The      *)
(* device has a combinational output, the sum of its signals, which is     *)
(* brought up to date by a step or on request.                             *)
(*                                                                         *)
(* An event: a command a with a name n, numbers v, text s, and what there  *)
(* is afterwards: vals, forced, set (the other settings of the signals are *)
(* what they were), sum, cyc, wave (flushes of the waveform), out (what    *)
(* has been printed: [w, base, v] for a value, or names), said (number of  *)
(* lines printed), stop (the debugger would go on with the program).       *)
(*   step v; flush ok; list v s; print n s; set n v; force n v; release n; *)
(*   poke n v (another party writes the signal).  ok = 0: the command has  *)
(*   arguments that make no sense.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

S(P) == DOMAIN P.sigs
DbgInit(P) == [val |-> [k \in S(P) |-> 0], forced |-> [k \in S(P) |-> 0], sum |-> 0, cyc |-> 0, wave |-> 0, ended |-> FALSE]

Pow2(n) == 2 ^ n
RECURSIVE SumTo(_, _)
SumTo(v, n) == IF n = 0 THEN 0 ELSE (v[n] + SumTo(v, n - 1)) % 65536
Sum(v) == SumTo(v, Len(v))

Fresh(st) == [st EXCEPT !.sum = Sum(st.val)]
Steps(P, st, n) ==
  IF n = 0 THEN st
  ELSE Fresh([st EXCEPT !.cyc = @ + n,
                        !.val = [k \in S(P) |-> IF P.sigs[k].count = 1 /\ st.forced[k] = 0
                                                THEN (@[k] + n) % Pow2(P.sigs[k].width) ELSE @[k]]])

Find(P, n) == {k \in S(P) : P.sigs[k].name = n}
Known(P, e) == e.ok = 1 /\ Find(P, e.n) # {}
K(P, e) == CHOOSE k \in Find(P, e.n) : TRUE

Effect1(P, st, e) ==
  CASE e.a = "step"  -> IF e.ok = 1 THEN [Steps(P, st, e.v) EXCEPT !.wave = @ + 1] ELSE st
    [] e.a = "flush" -> IF e.ok = 1 THEN [st EXCEPT !.wave = @ + 1] ELSE st
    [] e.a = "set"   -> IF Known(P, e) THEN Fresh([st EXCEPT !.val[K(P, e)] = IF st.forced[K(P, e)] = 1 THEN @ ELSE e.v]) ELSE st
    [] e.a = "force" -> IF Known(P, e) THEN Fresh([st EXCEPT !.val[K(P, e)] = e.v, !.forced[K(P, e)] = 1]) ELSE st
    [] e.a = "release" -> IF Known(P, e) THEN Fresh([st EXCEPT !.forced[K(P, e)] = 0]) ELSE st
    [] e.a = "poke"  -> [st EXCEPT !.val[K(P, e)] = IF st.forced[K(P, e)] = 1 THEN @ ELSE e.v]
    [] OTHER -> st

Starts(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
Printed(P, st, e) ==      \* the values and names that are to be printed
  CASE e.a = "print" /\ Known(P, e) -> {<<P.sigs[K(P, e)].width, e.s, st.val[K(P, e)]>>}
    [] e.a = "list" /\ e.ok = 1 -> {<<P.sigs[k].name>> : k \in {j \in S(P) : P.sigs[j].depth <= e.v /\ Starts(P.sigs[j].name, e.s)}}
    [] OTHER -> {}

(* A command with arguments that make no sense, or with the name of no     *)
(* signal, says so                                                         *)
Fails(P, e) == e.ok = 0 \/ (e.a \in {"print", "set", "force", "release"} /\ ~Known(P, e))

Guard(P, st, e) ==
  IF st.ended THEN {"after_end"}
  ELSE IF e.a = "End" THEN {}
  ELSE IF e.a \notin {"step", "flush", "list", "print", "set", "force", "release", "poke", "none"} THEN {"hang"}
  ELSE
  LET n == Effect1(P, st, e) IN
  (IF e.vals # n.val \/ e.forced # n.forced THEN {"dbg_state"} ELSE {})
  \cup (IF e.sum # n.sum THEN {"dbg_comb"} ELSE {})
  \cup (IF e.cyc # n.cyc THEN {"dbg_clock"} ELSE {})
  \cup (IF e.wave # n.wave THEN {"dbg_wave"} ELSE {})
  \cup (IF e.set # 1 THEN {"dbg_settings"} ELSE {})
  \cup (IF e.stop # 0 THEN {"dbg_stop"} ELSE {})
  \cup (IF {e.out[j] : j \in DOMAIN e.out} # Printed(P, st, e) \/ Len(e.out) # Cardinality(Printed(P, st, e))
        THEN {"dbg_print"} ELSE {})
  \cup (IF Fails(P, e) /\ e.said = 0 THEN {"dbg_report"} ELSE {})

Effect(P, st, e) ==
  IF st.ended THEN st
  ELSE IF e.a = "End" THEN [st EXCEPT !.ended = TRUE]
  ELSE Effect1(P, st, e)
=============================================================================
