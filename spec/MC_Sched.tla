------------------------------ MODULE MC_Sched ------------------------------
(* Exhaustive exploration of the Sched design: every program of a bounded  *)
(* family, every schedule of each.  Every initial state prints its program *)
(* so that the very same programs are then run on the real code.           *)
EXTENDS Sched, TLC, Json

CONSTANTS Len2, Len3, MaxNow, PrintProgs

VARIABLES prog, st, hist
vars == <<prog, st, hist>>

O(k, n) == [k |-> k, n |-> n, l |-> <<>>]

OpSet(t) == {O("clk", 1), O("sleep", 0), O("set", 1), O("wait", 1),
             O("clear", 1), O("put", 1), O("get", 1), O("fail", 0)}
            \cup (IF t = 2 THEN {O("cancel", 3)} ELSE {})

SeqsUpTo(S, n) == UNION {[1..m -> S] : m \in 0..n}

MainTails == {<<O("clk", 1)>>, <<O("clk", 2)>>, <<O("sleep", 0)>>, <<O("wait", 1)>>,
              <<O("join", 2)>>, <<O("get", 1)>>, <<>>}

Programs ==
  {[tasks |-> <<[ops |-> <<O("spawn", 2), O("spawn", 3)>> \o m, fin |-> 0, fc |-> 0],
                [ops |-> a, fin |-> 0, fc |-> 0],
                [ops |-> b, fin |-> f[1], fc |-> f[2]]>>,
    nev |-> 1, nq |-> 1] :
     m \in MainTails, a \in SeqsUpTo(OpSet(2), Len2), b \in SeqsUpTo(OpSet(3), Len3),
     f \in {<<0, 0>>, <<1, 0>>, <<1, 1>>}}
  \cup
  {[tasks |-> <<[ops |-> m \o <<[k |-> "gather", n |-> 0, l |-> <<2, 3>>]>>, fin |-> 0, fc |-> 0],
                [ops |-> a, fin |-> 0, fc |-> 0],
                [ops |-> b, fin |-> 0, fc |-> 0]>>,
    nev |-> 1, nq |-> 1] :
     m \in {<<>>, <<O("clk", 1)>>},
     a \in SeqsUpTo(OpSet(3), Len2), b \in SeqsUpTo(OpSet(3), Len3)}

Init == /\ prog \in Programs
        /\ st = SchedInit(prog)
        /\ hist = [put |-> <<>>, got |-> <<>>]
        /\ PrintProgs => PrintT(ToJson(prog))

E(t, v, ls) == [a |-> "E", t |-> t, i |-> st.pc[t], v |-> v, l |-> ls]

(* The result an operation has in the design                               *)
OpEvent(t) ==
  LET o == Cur(prog, st, t) IN
  CASE o.k = "put"    -> E(t, Len(hist.put) + 1, <<>>)
    [] o.k = "get"    -> E(t, IF st.q[o.n] = <<>> THEN 0 ELSE Head(st.q[o.n]), <<>>)
    [] o.k = "gather" -> E(t, 0, o.l)
    [] o.k = "join"   -> E(t, IF Failed(prog, st, o.n) THEN o.n ELSE 0, <<>>)
    [] o.k = "cancel" -> E(t, IF st.status[o.n] = "run" /\ ~st.cnc[o.n] THEN 1 ELSE IF st.status[o.n] = "ready" THEN 2 ELSE 0, <<>>)
    [] OTHER          -> E(t, 0, <<>>)

Candidates ==
  {[a |-> "S", t |-> t, i |-> 0, v |-> 0, l |-> <<>>] : t \in Tasks(prog)}
  \cup {OpEvent(t) : t \in {x \in Tasks(prog) : st.status[x] = "run"
                             /\ st.pc[x] <= Len(prog.tasks[x].ops)
                             /\ Cur(prog, st, x).k # "fail"
                             /\ OpEnabled(prog, st, x)}}
  \cup {E(t, x, <<>>) : t \in {y \in Tasks(prog) : st.status[y] = "run" /\ Cur(prog, st, y).k = "gather"},
                        x \in {y \in Tasks(prog) : Failed(prog, st, y)}}
  \cup {[a |-> "F", t |-> t, i |-> 0, v |-> k, l |-> <<>>] : t \in Tasks(prog), k \in {0, 1, 3, 4}}
  \cup {[a |-> x, t |-> 0, i |-> 0, v |-> 0, l |-> <<>>] : x \in {"Step", "End"}}

(* The main body is never cancelled, and no one is killed before it ended   *)
Sane(e) == ~(e.a = "F" /\ e.v \in {1, 3} /\ e.t = 1)

Next == \E e \in Candidates :
          /\ Sane(e)
          /\ Guard(prog, st, e) = {}
          /\ st' = Effect(prog, st, e)
          /\ hist' = IF e.a = "E" /\ Cur(prog, st, e.t).k = "put"
                     THEN [hist EXCEPT !.put = Append(@, e.v)]
                     ELSE IF e.a = "E" /\ Cur(prog, st, e.t).k = "get"
                     THEN [hist EXCEPT !.got = Append(@, e.v)]
                     ELSE hist
          /\ UNCHANGED prog

Finish == st.ended /\ UNCHANGED vars

Spec == Init /\ [][Next \/ Finish]_vars
FairSpec == Spec /\ WF_vars(Next)

Bound == st.now <= MaxNow

----------------------------------------------------------------------------
(* Every clock wait still pending has not missed its cycle                 *)
ClockExact == \A t \in Tasks(prog) :
  st.status[t] = "run" /\ Cur(prog, st, t).k = "clk"
    => st.now - st.t0[t] <= Cur(prog, st, t).n

(* Items are got exactly once, in the order they were put                  *)
QueueExact == hist.put = hist.got \o st.q[1]

(* The run ends with nobody left, after exactly one step in which the      *)
(* body had returned                                                       *)
EndClean == st.ended => \A t \in Tasks(prog) : ~Alive(st, t)

(* Within a cycle progress is never lost: a step implies that no task could *)
(* go on, and every event released a waiter at the time it was set          *)
StepQuiet == [][st'.now # st.now => Quiet(prog, st)]_vars
OneFinalStep == [][st.final => st'.now = st.now]_vars
NothingAfterKill == [][st.kill =>
    \A t \in Tasks(prog) : st'.pc[t] = st.pc[t]]_vars

(* Programs whose body waits for the clock only always end                 *)
Terminates ==
  (\A i \in DOMAIN prog.tasks[1].ops :
      prog.tasks[1].ops[i].k \in {"spawn", "clk", "sleep"}) ~> st.ended
=============================================================================
