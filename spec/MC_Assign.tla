----------------------------- MODULE MC_Assign -----------------------------
(***************************************************************************)
(* Assignment as it is built - the wildcard first, then the named signals, *)
(* then the sub-bundles - against the definition, for every dictionary     *)
(* over a tree with a list, a sub-bundle, a list of bundles, an output and *)
(* a signal without a pin.                                                 *)
(***************************************************************************)
EXTENDS Assign, TLC, Json

E(n, i) == [n |-> n, i |-> i]
Leaf(p, o, c) == [path |-> p, out |-> o, width |-> 8, conn |-> c]
P == [leaves |-> <<Leaf(<<E("a", -1)>>, 0, 1), Leaf(<<E("o", -1)>>, 1, 1), Leaf(<<E("u", -1)>>, 0, 0),
                   Leaf(<<E("l", 0)>>, 0, 1), Leaf(<<E("l", 1)>>, 0, 1),
                   Leaf(<<E("s", -1), E("a", -1)>>, 0, 1), Leaf(<<E("s", -1), E("b", -1)>>, 1, 1),
                   Leaf(<<E("v", 0), E("a", -1)>>, 0, 1), Leaf(<<E("v", 1), E("a", -1)>>, 0, 1)>>]
Bundles == {<<>>, <<E("s", -1)>>, <<E("v", 0)>>, <<E("v", 1)>>}
Units == {{1}, {2}, {3}, {4, 5}, {6}, {7}, {8}, {9}}   \* leaves that are named together

VARIABLES st, chosen, stars, flat, phase
vars == <<st, chosen, stars, flat, phase>>

RECURSIVE Items(_), Strs(_)
Items(k) == IF k > Len(P.leaves) THEN <<>>
            ELSE (IF k \in chosen THEN <<[path |-> P.leaves[k].path, v |-> 20 + k]>> ELSE <<>>) \o Items(k + 1)
Strs(S) == IF S = {} THEN <<>>
           ELSE LET b == CHOOSE x \in S : TRUE IN <<[path |-> b, v |-> 10 + Len(b) + (IF b # <<>> THEN b[1].i ELSE 5)]>> \o Strs(S \ {b})
Ev == [a |-> "Assign", at |-> <<>>, items |-> Items(1), stars |-> Strs(stars), flat |-> flat]

Direct(b) == {k \in L(P) : Len(P.leaves[k].path) = Len(b) + 1 /\ IsPrefix(b, P.leaves[k].path)}
RECURSIVE Rec(_, _)
Rec(val, b) ==
  LET v1 == IF b \in stars
            THEN [k \in L(P) |-> IF k \in Under(P, b) /\ Writable(P, k)
                                 THEN Ev.stars[CHOOSE j \in DOMAIN Ev.stars : Ev.stars[j].path = b].v ELSE val[k]]
            ELSE val
      v2 == [k \in L(P) |-> IF k \in Direct(b) /\ k \in chosen /\ P.leaves[k].conn = 1
                            THEN 20 + k ELSE v1[k]]
      Kids == {c \in Bundles : Len(c) = Len(b) + 1 /\ IsPrefix(b, c)}
      RECURSIVE All(_, _)
      All(v, S) == IF S = {} THEN v ELSE LET c == CHOOSE x \in S : TRUE IN All(Rec(v, c), S \ {c})
  IN All(v2, Kids)

MCInit == /\ st = [AssignInit(P) EXCEPT !.val = [k \in L(P) |-> IF P.leaves[k].conn = 1 THEN k ELSE None]]
          /\ chosen \in {UNION U : U \in SUBSET Units}
          /\ flat \in {0, 1}
          /\ stars \in IF flat = 1 THEN {{}, {<<>>}} ELSE SUBSET Bundles
          /\ phase = "go"

Next == /\ phase = "go" /\ phase' = "done"
        /\ st' = Effect(P, st, Ev)
        /\ PrintT(ToJson(Ev))
        /\ UNCHANGED <<chosen, stars, flat>>

MCSpec == MCInit /\ [][Next]_vars

Before == [k \in L(P) |-> IF P.leaves[k].conn = 1 THEN k ELSE None]
Agree == phase = "done" => st.val = Rec(Before, <<>>)
OutputsOnlyByName == phase = "done" => \A k \in L(P) :
   (P.leaves[k].out = 1 /\ k \notin chosen) => st.val[k] = Before[k]
OthersKept == phase = "done" /\ stars = {} => \A k \in L(P) : k \notin chosen => st.val[k] = Before[k]
=============================================================================
