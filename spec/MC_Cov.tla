------------------------------- MODULE MC_Cov -------------------------------
(***************************************************************************)
(* Every state of a group with two possible points on one target, and      *)
(* every operation in it.  The counts are compared with their definition   *)
(* over the history; every transition is printed, to be run on the code.   *)
(***************************************************************************)
EXTENDS Cov, TLC, Json

CONSTANTS MaxHits, MaxLen, Disable

P == [targets |-> 1, disable |-> Disable]

C(k, v) == [k |-> k, v |-> v]
BinsA == <<[name |-> "b1", conds |-> <<C("eq", <<1>>)>>],
           [name |-> "b2", conds |-> <<C("ge", <<0>>), C("le", <<1>>)>>]>>
BinsB == <<[name |-> "c1", conds |-> <<C("in", <<1, 2>>)>>]>>

E0 == [a |-> "", n |-> "", t |-> 1, v |-> 0, once |-> 2, bins |-> <<>>, mark |-> <<>>, f |-> <<>>]
Ops == {[E0 EXCEPT !.a = "Set", !.v = x] : x \in 0..1}
       \cup {[E0 EXCEPT !.a = x] : x \in {"Sample", "Stop", "Resume", "Clear"}}
       \cup {[E0 EXCEPT !.a = "Add", !.n = "A", !.bins = BinsA, !.once = x] : x \in {0, 2}}
       \cup {[E0 EXCEPT !.a = "Add", !.n = "B", !.bins = BinsB]}
       \cup {[E0 EXCEPT !.a = x, !.n = y] : x \in {"Del", "Reset"}, y \in {"A", "B"}}

VARIABLES st, hist
vars == <<st, hist>>
View == st

MCInit == st = CovInit(P) /\ hist = <<>>

Next == \E o \in Ops :
          /\ st' = Op(P, st, o)
          /\ hist' = Append(hist, o)
          /\ PrintT(ToJson([ops |-> hist']))

MCSpec == MCInit /\ [][Next]_vars

Small == /\ Len(hist) < MaxLen
         /\ \A i \in DOMAIN st.pts : \A j \in DOMAIN st.pts[i].hits : st.pts[i].hits[j] <= MaxHits
         /\ st.count <= 3 /\ st.calln <= 4

(* ------- the counts by their definition over the history                 *)
ValueAt(k) == LET S == {m \in 1..k : hist[m].a = "Set"}
              IN IF S = {} THEN 0 ELSE hist[CHOOSE m \in S : \A n \in S : n <= m].v
Born(p) == LET S == {m \in DOMAIN hist : hist[m].n = p.name /\ hist[m].a \in {"Add", "Reset"}}
               T == {m \in S : hist[m].a = "Reset" \/
                       \A n \in S : hist[n].a = "Add" => (n >= m \/ \E d \in n..m : hist[d].a = "Clear" \/ (hist[d].a = "Del" /\ hist[d].n = p.name))}
           IN CHOOSE m \in T : \A n \in T : n <= m
RECURSIVE StateAt(_)
StateAt(k) == IF k = 0 THEN CovInit(P) ELSE Op(P, StateAt(k - 1), hist[k])

Counts == \A i \in DOMAIN st.pts : \A j \in DOMAIN st.pts[i].bins :
            LET p == st.pts[i]
            IN p.hits[j] = Cardinality({k \in Born(p)..Len(hist) :
                 hist[k].a = "Sample" /\ ~Stopped(StateAt(k - 1)) /\ Match(p.bins[j], ValueAt(k))})

(* nothing is sampled in a group that is stopped; a group that is not      *)
(* stopped by the user stops only once everything is covered               *)
StopsWhenCovered == Stopped(st) => (st.stop \/ AllCovered(st))
Monotone == [][\A i \in DOMAIN st.pts, k \in DOMAIN st'.pts :
     (st.pts[i].name = st'.pts[k].name /\ ~(\E x \in {"Reset", "Clear"} : hist'[Len(hist')].a = x))
       => \A j \in DOMAIN st.pts[i].hits : st'.pts[k].hits[j] >= st.pts[i].hits[j]]_vars
=============================================================================
