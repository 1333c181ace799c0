-------------------------------- MODULE Req --------------------------------
(***************************************************************************)
(* Bundle.process_requests: a batch of requests issued by the rising edges *)
(* of the DUT.                                                             *)
(*                                                                         *)
(* P.pins input pins and one output (the sum of the inputs at the last     *)
(* step) on each of P.duts devices; P.bundles bundles, all of the same     *)
(* shape: pins beyond P.subat are those of a sub-bundle.  A request is     *)
(*   [k, as, star, ss, cond, nf, ret]                                      *)
(* k: "dict", "call" (a function that gives the dictionary), "none" or     *)
(* "callnone" (nothing to do); as: sequence of [p, v]; star: value for all *)
(* inputs, -1 none; ss: value for all of the sub-bundle, -1 none; cond:    *)
(* whether its condition holds in the s-th step of the batch (beyond the   *)
(* end it does, <<>> means no condition); nf: number of functions; ret:    *)
(* number of bundles to return.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

ReqInit(P) == [vals |-> [d \in 1..P.duts |-> [p \in 1..P.pins |-> 0]],
               out |-> [d \in 1..P.duts |-> 0],
               cyc |-> [d \in 1..P.duts |-> 0],
               cur |-> [b \in 1..P.bundles |-> 1],   \* the device each bundle is bound to
               b |-> 1,            \* the bundle of the batch
               batch |-> <<>>,     \* requests
               on |-> FALSE,       \* a batch is being processed
               next |-> 1,         \* the request to be issued next
               step |-> 0,         \* steps in this batch
               made |-> FALSE,     \* the function that gives the next request was called
               fs |-> 0,           \* functions of the request of this step that ran
               res |-> <<>>,       \* what is to be returned
               ended |-> FALSE]

CondAt(q, s) == IF q.cond = <<>> \/ s > Len(q.cond) THEN TRUE ELSE q.cond[s] = 1

Sum(v) == LET RECURSIVE S(_)
              S(n) == IF n = 0 THEN 0 ELSE v[n] + S(n - 1)
          IN S(Len(v))

Cur(st) == st.cur[st.b]

(* the request issued by the next step, 0 if none                          *)
Issued(st) == IF st.on /\ st.next <= Len(st.batch) /\ CondAt(st.batch[st.next], st.step + 1)
              THEN st.next ELSE 0

Assigned(P, v, q) ==
  IF q.k \in {"none", "callnone"} THEN v
  ELSE LET v0 == IF q.star >= 0 THEN [p \in DOMAIN v |-> q.star] ELSE v
           v1 == IF q.ss >= 0 THEN [p \in DOMAIN v |-> IF p > P.subat THEN q.ss ELSE v0[p]] ELSE v0
           RECURSIVE A(_, _)
           A(x, i) == IF i > Len(q.as) THEN x ELSE A([x EXCEPT ![q.as[i].p] = q.as[i].v], i + 1)
       IN A(v1, 1)

(* pin values of the current device while its rising edge is handled       *)
Now(P, st) == IF Issued(st) = 0 THEN st.vals[Cur(st)] ELSE Assigned(P, st.vals[Cur(st)], st.batch[Issued(st)])

(* what a request returns: the bundle's values, cycle, function values     *)
Returns(P, st, q) ==
  LET v == Now(P, st) \o <<st.out[Cur(st)]>>
  IN [data |-> [i \in 1..q.ret |-> v], cycle |-> st.cyc[Cur(st)] + 1,
      fr |-> [j \in 1..q.nf |-> st.next * 10 + j]]

(* Events: Batch b reqs; Made i cyc (the function that gives request i is called);
   Func i j cyc vals; Step d cyc duts (all pin values); Ret res; Bind d; End *)
Guard(P, st, e) ==
  IF st.ended THEN {"after_end"}
  ELSE
  CASE e.a = "Batch" -> IF st.on THEN {"op_unexpected"} ELSE {}
    [] e.a = "Made" ->
         IF ~st.on \/ e.i # st.next \/ st.made \/ st.next > Len(st.batch) THEN {"req_made"}
         ELSE (IF st.batch[st.next].k \notin {"call", "callnone"} THEN {"req_made"} ELSE {})
          \cup (IF e.cyc # st.cyc[Cur(st)] + 1 THEN {"req_cycle"} ELSE {})
    [] e.a = "Func" ->
         IF Issued(st) # e.i THEN {"req_order"}
         ELSE (IF e.j # st.fs + 1 THEN {"req_funcs"} ELSE {})
          \cup (IF e.cyc # st.cyc[Cur(st)] + 1 THEN {"req_cycle"} ELSE {})
          \cup (IF e.vals # Now(P, st) \o <<st.out[Cur(st)]>> THEN {"req_assign"} ELSE {})
    [] e.a = "Step" ->
         (IF e.d # Cur(st) /\ st.on THEN {"req_dut"} ELSE {})
         \cup (IF st.on /\ st.next > Len(st.batch) THEN {"req_endless"} ELSE {})
         \cup (IF st.on /\ st.next <= Len(st.batch) /\ st.batch[st.next].k \in {"call", "callnone"}
                  /\ ~st.made THEN {"req_made"} ELSE {})
         \cup (IF Issued(st) # 0 /\ st.fs # st.batch[st.next].nf THEN {"req_funcs"} ELSE {})
         \cup (LET v == [d \in 1..P.duts |-> IF d = Cur(st) THEN (IF e.d = d THEN Now(P, st) ELSE st.vals[d])
                                             ELSE st.vals[d]]
                   o == [d \in 1..P.duts |-> IF d = e.d THEN Sum(v[d]) ELSE st.out[d]]
               IN IF e.duts # [d \in 1..P.duts |-> v[d] \o <<o[d]>>] THEN {"req_assign"} ELSE {})
    [] e.a = "Ret" ->
         IF ~st.on THEN {"op_unexpected"}
         ELSE IF st.next <= Len(st.batch) THEN {"req_left"}
         ELSE IF e.res # st.res THEN {"req_result"} ELSE {}
    [] e.a = "Bind" -> {}
    [] e.a = "Same" -> IF e.ok = 1 THEN {} ELSE {"req_mutated"}
    [] e.a = "End" -> IF st.on THEN {"req_left"} ELSE {}
    [] OTHER -> {"hang"}

Effect(P, st, e) ==
  IF st.ended THEN st
  ELSE
  CASE e.a = "Batch" -> [st EXCEPT !.batch = e.reqs, !.b = e.b, !.on = TRUE, !.made = FALSE, !.next = 1, !.step = 0, !.fs = 0, !.res = <<>>]
    [] e.a = "Made" -> [st EXCEPT !.made = TRUE]
    [] e.a = "Func" -> [st EXCEPT !.fs = @ + 1]
    [] e.a = "Step" ->
         LET i == Issued(st)
             v == IF e.d = Cur(st) THEN Now(P, st) ELSE st.vals[e.d]
             q == IF i = 0 THEN <<>> ELSE st.batch[i]
         IN [st EXCEPT !.vals[e.d] = v,
                       !.out[e.d] = Sum(v),
                       !.cyc[e.d] = @ + 1,
                       !.step = @ + 1,
                       !.next = IF i = 0 THEN @ ELSE @ + 1,
                       !.made = @ /\ i = 0,
                       !.fs = 0,
                       !.res = IF i # 0 /\ q.k = "dict" /\ q.ret > 0 THEN Append(@, Returns(P, st, q)) ELSE @]
    [] e.a = "Ret" -> [st EXCEPT !.on = FALSE]
    [] e.a = "Bind" -> [st EXCEPT !.cur[e.b] = e.d]
    [] e.a = "End" -> [st EXCEPT !.ended = TRUE]
    [] OTHER -> st
=============================================================================
