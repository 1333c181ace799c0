------------------------------- MODULE Assign -------------------------------
(***************************************************************************)
(* Values of a bundle: assign, as_dict, set_all, randomize_all, write      *)
(* modes (bundle.py), on any bundle of a tree of bundles.                  *)
(*                                                                         *)
(* P.leaves: the signals of the whole tree, each [path, out, width, conn]. *)
(* path is a sequence of [n, i]: a name, and an index (or -1) if it names  *)
(* an element of a list.  out: the pin is an output.  conn: it has a pin.  *)
(* The value of a signal without a pin is None and ignores writes.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

None == -1
L(P) == DOMAIN P.leaves

AssignInit(P) == [val |-> [k \in L(P) |-> IF P.leaves[k].conn = 1 THEN 0 ELSE None],
                  mode |-> [k \in L(P) |-> "-"],
                  ended |-> FALSE]

IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Under(P, at) == {k \in L(P) : IsPrefix(at, P.leaves[k].path)}
Writable(P, k) == P.leaves[k].conn = 1 /\ P.leaves[k].out = 0

(* The flat name of a path; an element of a list of signals has the name   *)
(* of its list                                                             *)
Elem(x) == IF x.i < 0 THEN x.n ELSE x.n \o "[" \o ToString(x.i) \o "]"
RECURSIVE Flat(_)
Flat(p) == IF Len(p) = 1 THEN p[1].n ELSE Elem(p[1]) \o "." \o Flat(Tail(p))
RECURSIVE Full(_)
Full(p) == IF Len(p) = 1 THEN Elem(p[1]) ELSE Elem(p[1]) \o "." \o Full(Tail(p))

Rel(p, at) == SubSeq(p, Len(at) + 1, Len(p))
Last(p) == p[Len(p)]

(* An assignment at `at`: items [path, v] with full paths, stars [path, v] *)
(* with the path of the bundle they stand in                               *)
Named(e, p) == {j \in DOMAIN e.items : e.items[j].path = p}
Stars(e, p) == {j \in DOMAIN e.stars : IsPrefix(e.stars[j].path, p)}
After(P, st, e, k) ==
  LET p == P.leaves[k].path
      S == Stars(e, p)
      N == Named(e, p)
  IN IF P.leaves[k].conn = 0 THEN None
     ELSE IF N # {} THEN e.items[CHOOSE j \in N : TRUE].v
     ELSE IF S # {} /\ P.leaves[k].out = 0
          THEN e.stars[CHOOSE j \in S : \A i \in S : Len(e.stars[i].path) <= Len(e.stars[j].path)].v
     ELSE st.val[k]

(* names that are not in the bundle, each reported once                    *)
Unknown(P, e) == Cardinality({j \in DOMAIN e.items : \A k \in L(P) : P.leaves[k].path # e.items[j].path})

Pow2(n) == 2 ^ n
(* the greatest value of n bits, as text: it may not be a number of TLC    *)
Top(n) == IF n <= 30 THEN ToString(Pow2(n) - 1) ELSE "2^" \o ToString(n) \o "-1"
Width(P, k) == IF P.leaves[k].width = 0 THEN 1 ELSE P.leaves[k].width

NewVal(P, st, e, k) ==
  CASE e.a = "Assign" -> After(P, st, e, k)
    [] e.a = "SetAll" -> IF k \in Under(P, e.at) /\ Writable(P, k) THEN e.v ELSE st.val[k]
    [] e.a = "Pin" -> IF k = e.k THEN e.v ELSE st.val[k]
    [] OTHER -> st.val[k]

Excluded(P, e, k) == \E j \in DOMAIN e.excl : Full(Rel(P.leaves[k].path, e.at)) = e.excl[j]

(* Events: Assign at items stars errs same; SetAll at v; Random at lo hi   *)
(* excl; AsDict at flat res; Mode at m; Pin k v (another party writes the  *)
(* pin); End.  All carry vals and modes of every signal afterwards.        *)
Guard(P, st, e) ==
  IF st.ended THEN {"after_end"}
  ELSE IF e.a = "End" THEN {}
  ELSE IF e.a \notin {"Assign", "SetAll", "Random", "AsDict", "Mode", "Pin", "Get"} THEN {"hang"}
  ELSE
  (CASE e.a = "Random" ->
         IF \E k \in L(P) :
              IF k \in Under(P, e.at) /\ Writable(P, k) /\ ~Excluded(P, e, k)
              THEN \/ ~(e.vals[k] >= (IF e.lo >= 0 THEN e.lo ELSE 0))
                   \/ e.lo >= 0 /\ e.vals[k] > e.hi
                   \/ e.lo < 0 /\ Width(P, k) <= 30 /\ e.vals[k] >= Pow2(Width(P, k))
                   \/ <<e.vals[k], IF e.lo >= 0 THEN ToString(e.lo) ELSE "0",
                        IF e.lo >= 0 THEN ToString(e.hi) ELSE Top(Width(P, k))>>
                        \notin {e.draws[j] : j \in DOMAIN e.draws}
              ELSE e.vals[k] # st.val[k]
         THEN {"rand_values"} ELSE {}
     [] OTHER ->
         IF \A k \in L(P) : e.vals[k] = NewVal(P, st, e, k) THEN {}
         ELSE {IF e.a = "Assign" THEN "assign_values" ELSE IF e.a = "SetAll" THEN "setall_values" ELSE "values_changed"})
  \cup (IF \A k \in L(P) : e.modes[k] =
             IF e.a = "Mode" /\ k \in Under(P, e.at) /\ Writable(P, k) THEN e.m ELSE st.mode[k]
        THEN {} ELSE {"write_mode"})
  \cup (CASE e.a = "Assign" -> (IF e.errs # Unknown(P, e) THEN {"assign_report"} ELSE {})
                               \cup (IF e.same # 1 THEN {"assign_mutates"} ELSE {})
          [] e.a = "AsDict" ->
               LET want == {<<IF e.flat = 1 THEN Flat(Rel(P.leaves[k].path, e.at)) ELSE "",
                              IF e.flat = 1 THEN Last(P.leaves[k].path).i ELSE 0,
                              IF e.flat = 1 THEN <<>> ELSE Rel(P.leaves[k].path, e.at), st.val[k]>> : k \in Under(P, e.at)}
                   got == {<<e.res[j].key, e.res[j].i, e.res[j].path, e.res[j].v>> : j \in DOMAIN e.res}
               IN IF got # want \/ Len(e.res) # Cardinality(want) THEN {"as_dict"} ELSE {}
          [] e.a = "Get" -> IF e.v # st.val[e.k] THEN {"get_value"} ELSE {}
          [] OTHER -> {})

Effect(P, st, e) ==
  IF st.ended THEN st
  ELSE IF e.a = "End" THEN [st EXCEPT !.ended = TRUE]
  ELSE IF e.a \notin {"Assign", "SetAll", "Random", "AsDict", "Mode", "Pin", "Get"} THEN st
  ELSE [st EXCEPT !.val = IF e.a = "Random" THEN e.vals ELSE [k \in L(P) |-> NewVal(P, st, e, k)],
                  !.mode = IF e.a = "Mode"
                           THEN [k \in L(P) |-> IF k \in Under(P, e.at) /\ Writable(P, k) THEN e.m ELSE @[k]] ELSE @]
=============================================================================
