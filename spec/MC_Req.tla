------------------------------- MODULE MC_Req -------------------------------
(***************************************************************************)
(* Request processing as it is built - a queue and a request held back -   *)
(* against the specification, for every small batch.                       *)
(***************************************************************************)
EXTENDS Req, TLC, Json

CONSTANTS MaxLen, CondLen

P == [pins |-> 2, duts |-> 1, bundles |-> 1, subat |-> 2]
Conds == UNION {[1..n -> 0..1] : n \in 0..CondLen}
Q(k, p, c, f, r) == [k |-> k, as |-> <<[p |-> p, v |-> 0]>>, star |-> -1, ss |-> -1, cond |-> c, nf |-> f, ret |-> r]
Reqs == {Q("dict", p, c, p - 1, 2 - p) : p \in 1..2, c \in Conds}
        \cup {Q("call", 1, c, 0, 0) : c \in {<<>>, <<0>>, <<0, 0>>}}
        \cup {Q(k, 1, <<>>, 0, 0) : k \in {"none", "callnone"}}

VARIABLES st, queue, blocked, done, hist
vars == <<st, queue, blocked, done, hist>>

Number(b) == [i \in DOMAIN b |-> [b[i] EXCEPT !.as[1].v = i]]
Batch(b) == Effect(P, ReqInit(P), [a |-> "Batch", b |-> 1, reqs |-> b])

MCInit == \E n \in 1..MaxLen : \E b0 \in [1..n -> Reqs] :
            LET b == Number(b0) IN
            /\ st = Batch(b)
            /\ queue = [i \in 1..n |-> i]
            /\ blocked = 0 /\ done = <<>> /\ hist = b

(* One rising edge: a request held back is tried first, otherwise the next *)
Step ==
  /\ queue # <<>> \/ blocked # 0
  /\ LET i == IF blocked # 0 THEN blocked ELSE Head(queue)
         ok == CondAt(hist[i], st.step + 1)
     IN /\ blocked' = IF ok THEN 0 ELSE i
        /\ queue' = IF blocked # 0 THEN queue ELSE Tail(queue)
        /\ done' = IF ok THEN Append(done, [i |-> i, s |-> st.step + 1]) ELSE done
        /\ st' = Effect(P, st, [a |-> "Step", d |-> 1])
  /\ UNCHANGED hist

Emit == /\ queue = <<>> /\ blocked = 0 /\ st.on
        /\ PrintT(ToJson([reqs |-> hist]))
        /\ st' = Effect(P, st, [a |-> "Ret"])
        /\ UNCHANGED <<queue, blocked, done, hist>>

MCSpec == MCInit /\ [][Step \/ Emit]_vars /\ WF_vars(Step)

InOrder == \A k \in DOMAIN done : done[k].i = k /\ (k > 1 => done[k].s > done[k - 1].s)
Agree == st.next = Len(done) + 1
(* each request is issued in the first step in which its condition holds after the one before *)
Earliest == \A k \in DOMAIN done : \A s \in (IF k = 1 THEN 1 ELSE done[k - 1].s + 1)..(done[k].s - 1) :
              ~CondAt(hist[k], s)
Finishes == <>(Len(done) = Len(hist))
=============================================================================
