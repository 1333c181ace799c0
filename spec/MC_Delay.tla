------------------------------ MODULE MC_Delay ------------------------------
(***************************************************************************)
(* The delayers as they are built - a list of at most delay + 1 samples,   *)
(* one taken when all rounds of a cycle are over - against the definition. *)
(* Every run is printed as a program for the real code.                    *)
(***************************************************************************)
EXTENDS Delay, TLC, Json

CONSTANTS N, MaxDelay, MaxRounds

P == [pins |-> 1]
VARIABLES st, lists, rounds, log
vars == <<st, lists, rounds, log>>

Ev(a, p, v) == [a |-> a, p |-> p, v |-> v]
Do(e) == /\ st' = Effect(P, st, e)
         /\ log' = Append(log, e)

MCInit == st = DelayInit(P) /\ lists = <<>> /\ rounds = 0 /\ log = <<>>

Last(s) == s[Len(s)]
(* at most one write and one new delayer in a cycle, in either order       *)
CycleEvents == LET S == {k \in DOMAIN log : log[k].a = "Step"}
               IN SubSeq(log, IF S = {} THEN 1 ELSE (CHOOSE k \in S : \A j \in S : j <= k) + 1, Len(log))
Has(a) == \E k \in DOMAIN CycleEvents : CycleEvents[k].a = a

Write == /\ ~Has("Write") /\ Do(Ev("Write", 1, st.now + 1)) /\ UNCHANGED <<lists, rounds>>
New == /\ ~Has("New") /\ Len(lists) < 2
       /\ \E d \in 0..MaxDelay, p \in 1..Len(lists) + 1 :      \* of the signal or of an earlier delayer
            Do(Ev("New", p, d)) /\ lists' = Append(lists, <<>>)
       /\ UNCHANGED rounds
Round == /\ rounds < MaxRounds /\ rounds' = rounds + 1     \* hooks run, nothing is sampled
         /\ log' = Append(log, Ev("Hook", 1, 0)) /\ UNCHANGED <<st, lists>>
ListValue(l, i) == IF Len(l[i]) # st.dl[i].delay + 1 THEN None ELSE l[i][1]
RECURSIVE Sampled(_, _)        \* one after the other, in the order they were made
Sampled(i, l) ==
  IF i > Len(l) THEN l
  ELSE LET old == IF Len(l[i]) >= st.dl[i].delay + 1 THEN Tail(l[i]) ELSE l[i]
           src == IF st.dl[i].pin = 1 THEN st.val[1] ELSE ListValue(l, st.dl[i].pin - 1)
       IN Sampled(i + 1, [l EXCEPT ![i] = Append(old, src)])
Step == /\ st.now < N
        /\ lists' = Sampled(1, lists)
        /\ rounds' = 0
        /\ Do(Ev("Step", 0, 0))
Emit == /\ st.now = N /\ CycleEvents = <<>>
        /\ Len(lists) > 0
        /\ PrintT(ToJson([log |-> log]))
        /\ UNCHANGED vars

MCSpec == MCInit /\ [][Write \/ New \/ Round \/ Step \/ Emit]_vars

Exact == \A i \in DOMAIN lists : ListValue(lists, i) = Shows(st, i)
=============================================================================
