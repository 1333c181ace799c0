------------------------------- MODULE Sched -------------------------------
(***************************************************************************)
(* The scheduling contract of toffee (asynchronous.py): a program of       *)
(* concurrent tasks built from the library's primitives runs against a     *)
(* clocked DUT.                                                            *)
(*                                                                         *)
(* The state is one record.  Guard(P, st, e) is the set of the labels of   *)
(* the clauses that the event e breaks in state st (empty: e is allowed)   *)
(* and Effect(P, st, e) is the state after e.  The design specification    *)
(* (MC_Sched) takes every event whose guard is empty; the trace            *)
(* specification (Trace_Sched) feeds the events recorded from the real     *)
(* code through the very same operators.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

(* A program P:  [tasks |-> <<[ops |-> <<op>>, fin |-> e, fc |-> n]>>,       *)
(*                nev, nq].  Task 1 is the test body.  An op is            *)
(*   [k, n, l]  k: kind, n: number (cycles, event, queue, task), l: list   *)
(* fin = e > 0: when cancelled, the task sets event e while it cleans up.  *)
(* fc > 0: it then waits for that many steps before it ends.               *)
(* An op "fail", the last of a task, raises an exception of that task.     *)

Tasks(P)  == 1..Len(P.tasks)
Events(P) == 1..P.nev
Queues(P) == 1..P.nq

Range(s) == {s[i] : i \in DOMAIN s}
Without(s, x) == SelectSeq(s, LAMBDA y : y # x)

RetOp == [k |-> "ret", n |-> 0, l |-> <<>>]
Cur(P, st, t) ==
  IF st.pc[t] \in 1..Len(P.tasks[t].ops) THEN P.tasks[t].ops[st.pc[t]] ELSE RetOp

Finished(st, t) == st.status[t] \in {"done", "canc"}
Failed(P, st, t) == st.status[t] = "done" /\ Cur(P, st, t).k = "fail"
Alive(st, t)    == st.status[t] \in {"ready", "run", "clean"}

SchedInit(P) ==
  [ now    |-> 0,
    status |-> [t \in Tasks(P) |-> IF t = 1 THEN "ready" ELSE "idle"],
    pc     |-> [t \in Tasks(P) |-> 0],
    t0     |-> [t \in Tasks(P) |-> 0],
    rel    |-> [t \in Tasks(P) |-> FALSE],
    cnc    |-> [t \in Tasks(P) |-> FALSE],
    slp    |-> [t \in Tasks(P) |-> {}],     \* tasks not yet begun when t began to sleep
    cl     |-> [t \in Tasks(P) |-> 0],      \* when it began to clean up
    kc     |-> [t \in Tasks(P) |-> FALSE],  \* it was the end of the run that cancelled it
    ev     |-> [e \in Events(P) |-> FALSE],
    q      |-> [x \in Queues(P) |-> <<>>],
    w      |-> [x \in Queues(P) |-> <<>>],
    barge  |-> [x \in Queues(P) |-> FALSE],
    main   |-> "run",          \* run, ret, exc
    kill   |-> FALSE,          \* the end of the run is cancelling tasks
    final  |-> FALSE,          \* the last step has been made
    ended  |-> FALSE ]

----------------------------------------------------------------------------
(* What can happen without a further step of the clock                     *)

OpEnabled(P, st, t) ==
  LET o == Cur(P, st, t) IN
  CASE o.k = "clk"    -> st.now - st.t0[t] >= o.n
    [] o.k = "wait"   -> st.rel[t]
    [] o.k = "get"    -> st.q[o.n] # <<>>
    [] o.k = "join"   -> Finished(st, o.n)
    [] o.k = "gather" -> \A i \in DOMAIN o.l : Finished(st, o.l[i])
    [] OTHER          -> TRUE

CanProgress(P, st, t) ==
  \/ st.status[t] = "ready"
  \/ st.status[t] = "run" /\ (st.cnc[t] \/ OpEnabled(P, st, t))
  \/ st.status[t] = "clean" /\ st.now - st.cl[t] >= P.tasks[t].fc

(* The end of the run cannot finish a task that has to wait for the clock, *)
(* nor one that waits for such a task                                      *)
RECURSIVE Lingers(_, _, _, _)
Lingers(P, st, t, d) ==
  \/ st.status[t] = "clean" /\ st.kc[t]
  \/ /\ st.status[t] = "run" /\ d > 0
     /\ LET o == Cur(P, st, t) IN
        \/ o.k = "join" /\ Lingers(P, st, o.n, d - 1)
        \/ o.k = "gather" /\ \E i \in DOMAIN o.l : Lingers(P, st, o.l[i], d - 1)

Quiet(P, st) == \A t \in Tasks(P) : ~CanProgress(P, st, t)

(* The clauses a step breaks because task t could still make progress      *)
StepLabels(P, st, t) ==
  IF ~CanProgress(P, st, t) THEN {}
  ELSE IF st.status[t] = "ready" THEN {"step_ready"}
  ELSE IF st.status[t] = "clean" THEN {"step_cleanup"}
  ELSE IF st.cnc[t] THEN {"step_cancelled"}
  ELSE LET k == Cur(P, st, t).k IN
       CASE k = "clk"    -> {"step_clk"}
         [] k = "wait"   -> {"step_event"}
         [] k = "get"    -> {"step_queue"}
         [] k = "join"   -> {"step_join"}
         [] k = "gather" -> {"step_gather"}
         [] OTHER        -> {"step_run"}

----------------------------------------------------------------------------
(* Beginning an operation                                                  *)

Begin(P, st, t) ==
  LET o == Cur(P, st, t)
      s1 == [st EXCEPT !.t0[t] = st.now, !.rel[t] = FALSE]
  IN CASE o.k = "wait" -> [s1 EXCEPT !.rel[t] = st.ev[o.n]]
       [] o.k = "sleep" -> [s1 EXCEPT !.slp[t] = {x \in Tasks(P) : st.status[x] = "ready"}]
       [] o.k = "get" /\ st.q[o.n] = <<>> ->
            [s1 EXCEPT !.w[o.n] = Append(st.w[o.n], t)]
       [] o.k = "gather" ->
            [s1 EXCEPT !.status = [x \in Tasks(P) |->
                IF x \in Range(o.l) THEN "ready" ELSE st.status[x]]]
       [] OTHER -> s1

Release(P, st, e) ==   \* event e is set: everybody waiting for it is released
  [st EXCEPT !.ev[e] = TRUE,
             !.rel = [t \in Tasks(P) |->
                IF st.status[t] = "run" /\ Cur(P, st, t).k = "wait"
                   /\ Cur(P, st, t).n = e
                THEN TRUE ELSE st.rel[t]]]

OpEffect(P, st, e) ==
  LET t == e.t
      o == Cur(P, st, t)
  IN CASE o.k = "set"    -> Release(P, st, o.n)
       [] o.k = "clear"  -> [st EXCEPT !.ev[o.n] = FALSE]
       [] o.k = "put"    -> [st EXCEPT !.q[o.n] = Append(@, e.v)]
       [] o.k = "get"    ->
            [st EXCEPT !.q[o.n] = IF @ = <<>> THEN @ ELSE Tail(@),
                       !.w[o.n] = Without(@, t),
                       !.barge[o.n] = @ \/ (t \notin Range(st.w[o.n])
                                            /\ st.w[o.n] # <<>>)]
       [] o.k = "spawn"  -> [st EXCEPT !.status[o.n] = "ready"]
       [] o.k = "cancel" -> \* who is cancelled does not wait in line any more
            IF e.v = 2 THEN [st EXCEPT !.status[o.n] = "canc"]     \* before it has begun: it never does
            ELSE IF e.v = 1 THEN [st EXCEPT !.cnc[o.n] = TRUE, !.w = [q \in DOMAIN @ |-> Without(@[q], o.n)]] ELSE st
       [] OTHER          -> st

----------------------------------------------------------------------------
(* Events: [a, t, i, v]   a: S start, E operation completed, F finished,   *)
(* Step, End, Cut, Hang.                                                   *)

OpLabels(P, st, e) ==
  LET t == e.t
      o == Cur(P, st, t)
  IN CASE o.k = "clk"  -> IF st.now - st.t0[t] = o.n THEN {}
                          ELSE IF st.now - st.t0[t] < o.n THEN {"clk_early"}
                          ELSE {"clk_late"}
       [] o.k = "wait" -> IF st.rel[t] THEN {} ELSE {"event_spurious"}
       [] o.k = "get"  ->
            (IF st.q[o.n] = <<>> THEN {"queue_invented"}
             ELSE IF Head(st.q[o.n]) # e.v THEN {"queue_order"} ELSE {})
            \cup
            (IF t \in Range(st.w[o.n]) /\ Head(st.w[o.n]) # t /\ ~st.barge[o.n]
             THEN {"queue_unfair"} ELSE {})
       [] o.k = "join" -> IF ~Finished(st, o.n) THEN {"join_early"}
                          ELSE IF e.v # (IF Failed(P, st, o.n) THEN o.n ELSE 0) THEN {"join_result"} ELSE {}
       [] o.k = "sleep" -> IF \E x \in st.slp[t] : st.status[x] = "ready" THEN {"sleep_no_turn"} ELSE {}
       [] o.k = "gather" /\ e.v # 0 ->     \* it raised what the task e.v had raised
            IF e.v \in Range(o.l) /\ Failed(P, st, e.v) THEN {} ELSE {"gather_result"}
       [] o.k = "gather" ->
            (IF \E i \in DOMAIN o.l : Failed(P, st, o.l[i]) THEN {"gather_result"} ELSE {}) \cup
            (IF \A i \in DOMAIN o.l : Finished(st, o.l[i]) THEN {}
             ELSE {"gather_early"})
            \cup (IF e.l = o.l THEN {} ELSE {"gather_result"})
       [] OTHER        -> {}

Guard(P, st, e) ==
  IF st.ended THEN {"after_end"}
  ELSE
  CASE e.a = "S" ->
         (IF st.status[e.t] = "ready" THEN {} ELSE {"start_unexpected"})
         \cup (IF st.kill THEN {"run_while_killed"} ELSE {})
    [] e.a = "E" ->
         (IF st.status[e.t] = "run" /\ st.pc[e.t] = e.i /\ ~st.cnc[e.t]
          THEN OpLabels(P, st, e) ELSE {"op_unexpected"})
         \cup (IF st.kill THEN {"run_while_killed"} ELSE {})
         \cup (IF st.final THEN {"after_last_step"} ELSE {})
    [] e.a = "F" ->
         IF e.v = 4                      \* failed
         THEN (IF st.status[e.t] = "run" /\ Cur(P, st, e.t).k = "fail" /\ ~st.cnc[e.t]
               THEN {} ELSE {"op_unexpected"})
              \cup (IF st.kill THEN {"run_while_killed"} ELSE {})
         ELSE IF e.v = 0 \/ e.v = 2     \* returned or raised
         THEN (IF st.status[e.t] = "run" /\ st.pc[e.t] = Len(P.tasks[e.t].ops) + 1
                  /\ ~st.cnc[e.t]
               THEN {} ELSE {"op_unexpected"})
              \cup (IF st.kill THEN {"run_while_killed"} ELSE {})
         ELSE IF e.v = 1 /\ st.status[e.t] = "clean"     \* has cleaned up
         THEN IF st.now - st.cl[e.t] = P.tasks[e.t].fc THEN {}
              \* cut short, as only the end of the run does
              ELSE IF st.main = "exc" \/ st.final THEN {}
              ELSE IF st.main = "ret" /\ ~st.kc[e.t] THEN (IF st.kill \/ Quiet(P, st) THEN {} ELSE {"kill_early"})
              ELSE {"cleanup_cut"}
         ELSE                            \* cancelled; v = 3: begins to clean up
              (IF st.cnc[e.t] \/ st.kill \/ st.main = "exc" THEN {}
               ELSE IF st.main = "ret" /\ Quiet(P, st) THEN {}
               ELSE IF st.main = "ret" THEN {"kill_early"}
               \* a sibling of a task that failed goes on
               ELSE IF \E s \in DOMAIN P.tasks : \E j \in DOMAIN P.tasks[s].ops :
                          LET o == P.tasks[s].ops[j] IN
                          o.k = "gather" /\ e.t \in Range(o.l) /\ \E i \in DOMAIN o.l : Failed(P, st, o.l[i])
                    THEN {"gather_cancel"}
               ELSE {"kill_unexpected"})
              \cup (IF st.status[e.t] \in {"ready", "run"} /\ (e.v = 3) = (P.tasks[e.t].fc > 0 /\ st.status[e.t] = "run")
                    THEN {} ELSE {"op_unexpected"})
              \* only who waited for a task that was cleaning up has not been told before
              \cup (IF e.v = 3 /\ st.final /\ Cur(P, st, e.t).k \notin {"join", "gather"} THEN {"kill_late"} ELSE {})
    [] e.a = "Step" ->
         IF st.main = "exc" THEN {}      \* the loop is being torn down
         ELSE UNION {StepLabels(P, st, t) : t \in Tasks(P)}
              \cup
              (IF st.main = "ret" /\ st.final THEN {"steps_after_end"} ELSE {})
              \cup
              (IF st.main = "ret" /\ \E t \in Tasks(P) : Alive(st, t) /\ ~Lingers(P, st, t, Len(P.tasks))
               THEN {"last_step_alive"} ELSE {})
    [] e.a = "End" ->
         (IF st.main = "run" THEN {"end_early"} ELSE {})
         \cup (IF st.main = "ret" /\ ~st.final THEN {"end_without_step"} ELSE {})
         \cup (IF \E t \in Tasks(P) : \/ st.status[t] \in {"run", "clean"}
                                       \/ (st.status[t] = "ready" /\ st.main # "exc")
               THEN {"end_alive"} ELSE {})
         \cup (IF (st.main = "ret" /\ e.v # 0) \/ (st.main = "exc" /\ e.v # 2)
               THEN {"end_result"} ELSE {})
    [] e.a = "Cut" -> {}                 \* the harness stopped an endless program
    [] OTHER -> {"hang"}

Effect(P, st, e) ==
  IF st.ended THEN st
  ELSE
  CASE e.a = "S" -> Begin(P, [st EXCEPT !.status[e.t] = "run", !.pc[e.t] = 1], e.t)
    [] e.a = "E" ->
         IF st.status[e.t] = "run" /\ st.pc[e.t] = e.i /\ e.i <= Len(P.tasks[e.t].ops)
         THEN Begin(P, [OpEffect(P, st, e) EXCEPT !.pc[e.t] = @ + 1], e.t)
         ELSE st
    [] e.a = "F" /\ e.v = 3 ->
         [st EXCEPT !.status[e.t] = "clean", !.cl[e.t] = st.now,
                    !.kc[e.t] = ~st.cnc[e.t],
                    !.w = [x \in Queues(P) |-> Without(st.w[x], e.t)],
                    !.kill = @ \/ (~st.cnc[e.t] /\ st.main # "run")]
    [] e.a = "F" ->
         LET s1 == [st EXCEPT !.status[e.t] = IF e.v = 1 THEN "canc" ELSE "done",
                              !.cnc[e.t] = FALSE,
                              !.w = [x \in Queues(P) |-> Without(st.w[x], e.t)],
                              !.main = IF e.t = 1
                                       THEN (IF e.v = 0 THEN "ret" ELSE "exc")
                                       ELSE st.main,
                              !.kill = st.kill
                                 \/ (e.v = 1 /\ st.main # "run"
                                     /\ (~st.cnc[e.t]
                                         \/ (st.status[e.t] = "clean"
                                             /\ st.now - st.cl[e.t] < P.tasks[e.t].fc)))]
         IN IF e.v = 1 /\ P.tasks[e.t].fin > 0
            THEN Release(P, s1, P.tasks[e.t].fin) ELSE s1
    [] e.a = "Step" -> [st EXCEPT !.now = @ + 1, !.final = (st.main = "ret")]
    [] e.a = "End"  -> [st EXCEPT !.ended = TRUE]
    [] OTHER -> [st EXCEPT !.ended = TRUE]
=============================================================================
