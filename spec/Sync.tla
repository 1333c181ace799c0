-------------------------------- MODULE Sync --------------------------------
(***************************************************************************)
(* The synchronisation of a DUT's agents with reference models and the     *)
(* executor (agent.py, _base_agent.py, model.py, env.py, executor.py,      *)
(* _compare.py), seen from outside: calls of driver methods, runs of model *)
(* hooks, comparisons, monitored values, ports, executors, clock steps and *)
(* the end of the run.                                                     *)
(*                                                                         *)
(* A program P has                                                         *)
(*   calls  [path, sig, args, kw, prio, order, ret, plain]  path "" : not  *)
(*          a driver method; prio -1 / order "": not overridden            *)
(*   hooks  [kind, paths, prio, order, model, rets]   kind driver, agent   *)
(*          (for driver and monitor methods), monitor                      *)
(*   mons   [path]                                                         *)
(*   ports  [kind, paths, max]   kind driver, agent, monitor, queue        *)
(*   execs  [exit, adds]   adds: <<[c, g]>> call c in group g ("": default)*)
(*   opaque TRUE: comparisons are not visible, only their outcome          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Calls(P) == DOMAIN P.calls
Hooks(P) == DOMAIN P.hooks
Mons(P)  == DOMAIN P.mons
Ports(P) == DOMAIN P.ports
Execs(P) == DOMAIN P.execs

In(x, s) == \E i \in DOMAIN s : s[i] = x

----------------------------------------------------------------------------
(* What follows from the program alone                                     *)

Names(sig) == CASE sig = 0 -> <<>> [] sig \in {1, 5, 6, 8} -> <<"x">>
                [] sig \in {2, 7} -> <<"x", "y">> [] sig = 4 -> <<"x", "agent">> [] OTHER -> <<"x", "y", "z">>
Default(n) == IF n = "y" THEN "7" ELSE "9"

(* The arguments of call c by name, defaults filled in; those collected by  *)
(* *rest (sig 5) and **opts (sig 6) one by one; sig 7 has both, and z=9     *)
(* between them; the only argument of sig 8 is None                        *)
KwOf(k, n, d) == IF \E j \in DOMAIN k.kw : k.kw[j][1] = n
                 THEN LET j == CHOOSE j \in DOMAIN k.kw : k.kw[j][1] = n IN k.kw[j][2] ELSE d
Collected(k) == IF k.sig = 7
           THEN LET o == SelectSeq(k.kw, LAMBDA x : x[1] \notin {"x", "y", "z"})
                IN [i \in 1..(Len(k.args) - 2) |-> <<"rest" \o ToString(i - 1), k.args[i + 2]>>]
                   \o <<<<"z", KwOf(k, "z", "9")>>>> \o [i \in DOMAIN o |-> <<"opts." \o o[i][1], o[i][2]>>]
           ELSE IF k.sig = 5 THEN [i \in 1..(Len(k.args) - 1) |-> <<"rest" \o ToString(i - 1), k.args[i + 1]>>]
           ELSE IF k.sig = 6
           THEN LET o == SelectSeq(k.kw, LAMBDA x : x[1] # "x") IN [i \in DOMAIN o |-> <<"opts." \o o[i][1], o[i][2]>>]
           ELSE <<>>
Bound(P, c) ==
  LET k == P.calls[c]
      Val(i) == LET nm == Names(k.sig)[i] IN
                IF i <= Len(k.args) THEN k.args[i]
                ELSE KwOf(k, nm, Default(nm))
  IN [i \in 1..Len(Names(k.sig)) |-> <<Names(k.sig)[i], Val(i)>>] \o Collected(k)

(* The hooks of driver methods that match call c; a model that has a port  *)
(* for the method is not called                                            *)
Matching(P, c) == IF P.calls[c].path = "" THEN {}
                  ELSE {h \in Hooks(P) : /\ P.hooks[h].kind \in {"driver", "agent"}
                                         /\ In(P.calls[c].path, P.hooks[h].paths)
                                         /\ ~\E p \in Ports(P) : /\ P.ports[p].kind \in {"driver", "agent"}
                                                                 /\ P.ports[p].model = P.hooks[h].model
                                                                 /\ In(P.calls[c].path, P.ports[p].paths)}
Prio(P, c, h)  == IF P.calls[c].prio >= 0 THEN P.calls[c].prio ELSE P.hooks[h].prio
Order(P, c, h) == IF P.calls[c].order # "" THEN P.calls[c].order ELSE P.hooks[h].order
HooksFirst(P, c) == {h \in Matching(P, c) : Order(P, c, h) = "model_first"}
HooksLast(P, c)  == Matching(P, c) \ HooksFirst(P, c)
Result(P, c, h) == P.hooks[h].rets[c]
\* Values are known by their text; equal values may have different texts
Class(v) == CASE v \in {"0", "False", "0.0"} -> "0" [] v \in {"1", "True", "1.0"} -> "1"
              [] v \in {"5", "5.0"} -> "5" [] OTHER -> v
Differs(P, c, h) == Result(P, c, h) # "None" /\ Class(Result(P, c, h)) # Class(P.calls[c].ret)

MonHooks(P, m) == {h \in Hooks(P) : P.hooks[h].kind \in {"monitor", "agent"}
                                    /\ In(P.mons[m].path, P.hooks[h].paths)}
MonPorts(P, m) == {p \in Ports(P) : P.ports[p].kind \in {"monitor", "agent", "queue"}
                                    /\ In(P.mons[m].path, P.ports[p].paths)}
CallPorts(P, c) == IF P.calls[c].path = "" THEN {}
                   ELSE {p \in Ports(P) : P.ports[p].kind \in {"driver", "agent"}
                                          /\ In(P.calls[c].path, P.ports[p].paths)}

(* The groups of executor x: names in the order in which they appear       *)
Group(P, a) == IF a.g # "" THEN a.g ELSE IF P.calls[a.c].path = "" THEN P.calls[a.c].wname ELSE P.calls[a.c].path
GroupNames(P, x) ==
  LET A == P.execs[x].adds
      R[i \in 0..Len(A)] == IF i = 0 THEN <<>>
                            ELSE IF In(Group(P, A[i]), R[i - 1]) THEN R[i - 1]
                            ELSE Append(R[i - 1], Group(P, A[i]))
  IN R[Len(A)]
GroupCalls(P, x, g) ==
  LET A == SelectSeq(P.execs[x].adds, LAMBDA a : Group(P, a) = g)
  IN [i \in DOMAIN A |-> A[i].c]

----------------------------------------------------------------------------
SyncInit(P) ==
  [ i     |-> 0,
    now   |-> 0,
    env   |-> -1,                                  \* cycle in which the env was made
    call  |-> [c \in Calls(P) |-> "no"],           \* no, req, dut, end, ret, bad
    pend  |-> {},                                  \* hooks to be run
    ran   |-> {},                                  \* <<call, hook>> that have been run
    cmp   |-> {},                                  \* <<call, hook>> that have been compared
    inm   |-> [m \in Mons(P) |-> FALSE],           \* inside the monitor method
    lastm |-> [m \in Mons(P) |-> 0],               \* cycle of its last call or end
    q     |-> [p \in Ports(P) |-> <<>>],
    on    |-> [p \in Ports(P) |-> P.ports[p].kind # "queue"],
    rd    |-> {},                                  \* <<port, reader>> that wait
    drops |-> 0,
    wev   |-> {},                                  \* <<event, task>> that wait
    woken |-> {},                                  \* tasks that have been woken
    ex    |-> [x \in Execs(P) |-> "no"],           \* no, run, left, wait, all
    main  |-> "run",
    final |-> FALSE,
    doom  |-> {},                                  \* why the run must fail
    ended |-> FALSE ]

Obl(st, h, c, m, v, prio, kind) ==
  [h |-> h, c |-> c, m |-> m, v |-> v, prio |-> prio, kind |-> kind, lo |-> st.i]

----------------------------------------------------------------------------
(* Requesting a call                                                       *)

PortEntry(P, p, c) ==
  IF P.ports[p].kind = "agent" THEN [path |-> P.calls[c].path, pairs |-> Bound(P, c), v |-> ""]
  ELSE IF P.calls[c].sig \in {1, 8} THEN [path |-> "", pairs |-> <<<<"", Bound(P, c)[1][2]>>>>, v |-> ""]
  ELSE [path |-> "", pairs |-> Bound(P, c), v |-> ""]

Full(P, st, p) == P.ports[p].max # -1 /\ Len(st.q[p]) >= P.ports[p].max

Request(P, st, c, kind) ==
  [st EXCEPT !.call[c] = "req",
             !.pend = @ \cup {Obl(st, h, c, 0, "", Prio(P, c, h), kind) : h \in HooksFirst(P, c)},
             !.q = [p \in Ports(P) |-> IF p \in CallPorts(P, c) /\ ~Full(P, st, p)
                                       THEN Append(@[p], PortEntry(P, p, c)) ELSE @[p]],
             !.drops = @ + Cardinality({p \in CallPorts(P, c) : Full(P, st, p)})]

(* The executor group of call c and the call that follows it               *)
Follow(P, st, c) ==
  LET S == {<<x, j>> \in UNION {{<<x, j>> : j \in 1..Len(P.execs[x].adds)} : x \in Execs(P)} :
              P.execs[x].adds[j].c = c}
  IN IF S = {} THEN 0
     ELSE LET x == (CHOOSE s \in S : TRUE)[1]
              j == (CHOOSE s \in S : TRUE)[2]
              G == GroupCalls(P, x, Group(P, P.execs[x].adds[j]))
              k == CHOOSE k \in DOMAIN G : G[k] = c
          IN IF k = Len(G) THEN 0 ELSE G[k + 1]

RECURSIVE RequestAll(_, _, _, _)
RequestAll(P, st, s, kind) ==
  IF s = <<>> THEN st ELSE RequestAll(P, Request(P, st, Head(s), kind), Tail(s), kind)

GroupDone(P, st, x, g) == \A c \in ToSet(GroupCalls(P, x, g)) : st.call[c] \in {"end", "ret"}
AllDone(P, st, x) == \A g \in ToSet(GroupNames(P, x)) : GroupDone(P, st, x, g)
AnyDone(P, st, x) == \E g \in ToSet(GroupNames(P, x)) : GroupDone(P, st, x, g)
LeaveDue(P, st, x) ==
  CASE P.execs[x].exit = "all"  -> AllDone(P, st, x)
    [] P.execs[x].exit = "any"  -> AnyDone(P, st, x)
    [] OTHER -> TRUE

----------------------------------------------------------------------------
(* Comparisons                                                             *)

Settled(P, st, c) == st.call[c] \in {"end", "ret"} /\ ~\E o \in st.pend : o.c = c
Due(P, st) == {ch \in st.ran : Settled(P, st, ch[1]) /\ Result(P, ch[1], ch[2]) # "None"}

(* Opaque comparisons: a call whose hooks have all run is compared         *)
Judge(P, st) ==
  IF P.opaque /\ \E ch \in st.ran : Settled(P, st, ch[1]) /\ Differs(P, ch[1], ch[2])
  THEN [st EXCEPT !.doom = @ \cup {"mismatch"}] ELSE st

----------------------------------------------------------------------------
(* Hooks                                                                   *)

Earlier(a, b) ==    \* a was certainly requested before b
  \/ a.kind = "first" /\ b.kind \in {"first", "last", "mon", "group"} /\ a.lo < b.lo
  \/ a.kind = "mon"   /\ b.kind \in {"first", "last", "mon", "group"} /\ a.lo < b.lo
  \/ a.kind = "last"  /\ b.kind = "last" /\ a.lo < b.lo

Candidates(P, st, e) ==
  {o \in st.pend : o.h = e.h /\ (IF e.m > 0 THEN o.m = e.m /\ o.v = e.v
                                 ELSE o.m = 0 /\ (o.c = e.c \/ (e.c = 0 /\ P.calls[o.c].sig \in {0, 8}
                                                                /\ (e.path = "" \/ e.path = P.calls[o.c].path))))}
Chosen(P, st, e) == CHOOSE o \in Candidates(P, st, e) : \A x \in Candidates(P, st, e) : o.lo <= x.lo

HookLabels(P, st, e) ==
  IF Candidates(P, st, e) = {}
  THEN IF e.m > 0 THEN {"mon_delivery"}
       ELSE IF e.c \in Calls(P) /\ e.h \in Hooks(P) /\ <<e.c, e.h>> \in st.ran THEN {"hook_twice"}
       ELSE IF e.c \in Calls(P) /\ e.h \in Matching(P, e.c) /\ st.call[e.c] \in {"req", "dut"}
            THEN {"hook_order"}
       ELSE {"hook_foreign"}
  ELSE
  LET o == Chosen(P, st, e) IN
    (IF e.m > 0 THEN (IF e.path = "" \/ e.path = P.mons[e.m].path THEN {} ELSE {"mon_delivery"})
     ELSE IF P.hooks[e.h].kind = "agent"
          THEN (IF e.path = P.calls[o.c].path /\ e.kw = Bound(P, o.c) THEN {} ELSE {"hook_args"})
          ELSE (IF e.args = P.calls[o.c].args /\ e.kw = P.calls[o.c].kw THEN {} ELSE {"hook_args"}))
    \cup (IF \E x \in st.pend : x.prio < o.prio THEN {"hook_prio"} ELSE {})
    \cup (IF \E x \in st.pend : x.prio = o.prio /\ Earlier(x, o) THEN {"hook_fifo"} ELSE {})

HookEffect(P, st, e) ==
  IF Candidates(P, st, e) = {} THEN st
  ELSE LET o == Chosen(P, st, e)
           s1 == [st EXCEPT !.pend = @ \ {o}]
       IN IF e.m > 0 THEN s1
          ELSE Judge(P, [s1 EXCEPT !.ran = @ \cup {<<o.c, o.h>>}])

----------------------------------------------------------------------------
(* Nothing else can happen before the next step                            *)

StepLabels(P, st) ==
  (IF \E o \in st.pend : o.m = 0 THEN {"step_hook"} ELSE {})
  \cup (IF \E o \in st.pend : o.m > 0 THEN {"step_mon"} ELSE {})
  \cup (IF \E c \in Calls(P) : st.call[c] = "req" THEN {"step_dut"} ELSE {})
  \cup (IF \E c \in Calls(P) : st.call[c] = "end" /\ P.calls[c].plain THEN {"step_ret"} ELSE {})
  \cup (IF ~P.opaque /\ ~(Due(P, st) \subseteq st.cmp) THEN {"cmp_missing"} ELSE {})
  \cup (IF st.env >= 0 /\ \E m \in Mons(P) : ~st.inm[m] /\ st.lastm[m] < st.now
        THEN {"mon_missed"} ELSE {})
  \cup (IF \E w \in st.rd : st.q[w[1]] # <<>> THEN {"step_port"} ELSE {})
  \cup (IF \E x \in Execs(P) : \/ st.ex[x] = "run" /\ LeaveDue(P, st, x)
                               \/ st.ex[x] = "wait" /\ AllDone(P, st, x)
        THEN {"exec_late"} ELSE {})
  \cup (IF st.woken # {} THEN {"step_event"} ELSE {})
  \cup (IF st.main = "ret" /\ st.final THEN {"steps_after_end"} ELSE {})

(* Events *)
Guard(P, st, e) ==
  IF st.ended THEN {"after_end"}
  ELSE IF st.doom # {} /\ e.a # "End" THEN {}       \* being torn down
  ELSE IF st.main = "exc" /\ e.a # "End" THEN {}
  ELSE
  CASE e.a = "Env"    -> {}
    [] e.a = "Call"   -> IF st.call[e.c] = "no" THEN {} ELSE {"op_unexpected"}
    [] e.a = "Hook"   -> HookLabels(P, st, e)
    [] e.a = "Dut"    ->
         (IF st.call[e.c] = "req" THEN {}
          ELSE IF st.call[e.c] = "no" THEN {"exec_order"} ELSE {"exec_twice"})
         \cup (IF \E o \in st.pend : o.c = e.c /\ o.kind \in {"first", "group"} THEN {"dut_before_model"} ELSE {})
         \cup (IF e.kw = Bound(P, e.c) THEN {} ELSE {"dut_args"})
    [] e.a = "DutEnd" -> IF st.call[e.c] = "dut" THEN {} ELSE {"op_unexpected"}
    [] e.a = "Ret"    -> IF st.call[e.c] = "end" /\ e.v = P.calls[e.c].ret THEN {} ELSE {"call_ret"}
    [] e.a = "Cmp"    ->
         LET c == IF e.c = 0 THEN e.k ELSE e.c IN
         IF c # e.k \/ <<c, e.h>> \notin Due(P, st) THEN {"cmp_wrong"}
         ELSE IF <<c, e.h>> \in st.cmp THEN {"cmp_twice"} ELSE {}
    [] e.a = "Raise"  -> {}
    [] e.a = "MonCall" ->
         IF ~st.inm[e.m] /\ st.lastm[e.m] < st.now THEN {} ELSE {"mon_early"}
    [] e.a = "MonRet" -> IF st.inm[e.m] THEN {} ELSE {"op_unexpected"}
    [] e.a = "On"     -> {}
    [] e.a = "Wait"   -> {}
    [] e.a = "Get"    ->
         IF st.q[e.p] = <<>> THEN {"port_invented"}
         ELSE IF Head(st.q[e.p]) # e.v THEN {"port_value"} ELSE {}
    [] e.a = "Size"   -> IF e.n = (IF st.on[e.p] THEN Len(st.q[e.p]) ELSE 0) THEN {} ELSE {"port_size"}
    [] e.a = "Drain"  -> IF st.q[e.p] = e.l THEN {} ELSE {"port_value"}
    [] e.a = "Exec"   -> {}
    [] e.a = "ExecEnd" -> IF LeaveDue(P, st, e.x) THEN {} ELSE {"exec_early"}
    [] e.a = "WaitAll" -> {}
    [] e.a = "WaitEnd" -> IF AllDone(P, st, e.x) THEN {} ELSE {"exec_early"}
    [] e.a = "Res"    ->
         IF e.r = [g \in 1..Len(GroupNames(P, e.x)) |->
                     <<GroupNames(P, e.x)[g],
                       [j \in DOMAIN GroupCalls(P, e.x, GroupNames(P, e.x)[g]) |->
                          P.calls[GroupCalls(P, e.x, GroupNames(P, e.x)[g])[j]].ret]>>]
         THEN {} ELSE {"exec_results"}
    [] e.a = "WaitEv" -> {}
    [] e.a = "SetEv"  -> {}
    [] e.a = "Woke"   -> IF e.t \in st.woken THEN {} ELSE {"event_spurious"}
    [] e.a = "Main"   -> {}
    [] e.a = "Step"   -> StepLabels(P, st)
    [] e.a = "End"    ->
         IF st.doom # {}
         THEN (IF e.v = 0 THEN (IF "mismatch" \in st.doom THEN {"mismatch_lost"} ELSE {})
                               \cup (IF st.doom # {"mismatch"} THEN {"failure_lost"} ELSE {}) ELSE {})
         ELSE (IF e.v = 3 THEN {"failure_invented"} ELSE {})
              \cup (IF st.main = "run" THEN {"end_early"} ELSE {})
              \cup (IF st.main = "ret" /\ ~st.final THEN {"end_without_step"} ELSE {})
              \cup (IF \/ st.main = "ret" /\ e.v # 0
                       \/ st.main = "exc" /\ e.v # 2 THEN {"end_result"} ELSE {})
              \cup (IF st.main = "ret" /\ e.errs # st.drops THEN {"drop_report"} ELSE {})
    [] e.a = "Cut"    -> {}
    [] OTHER -> {"hang"}

Effect0(P, st, e) ==
  CASE e.a = "Env"    -> [st EXCEPT !.env = st.now, !.lastm = [m \in Mons(P) |-> st.now]]
    [] e.a = "Call"   -> Request(P, st, e.c, "first")
    [] e.a = "Hook"   -> HookEffect(P, st, e)
    [] e.a = "Dut"    -> [st EXCEPT !.call[e.c] = "dut"]
    [] e.a = "DutEnd" ->
         LET s1 == [st EXCEPT !.call[e.c] = "end",
                              !.pend = @ \cup {Obl(st, h, e.c, 0, "", Prio(P, e.c, h), "last") : h \in HooksLast(P, e.c)}]
             n == Follow(P, st, e.c)
         IN Judge(P, IF n = 0 THEN s1 ELSE Request(P, s1, n, "group"))
    [] e.a = "Ret"    -> [st EXCEPT !.call[e.c] = "ret"]
    [] e.a = "Cmp"    ->
         LET c == IF e.c = 0 THEN e.k ELSE e.c IN
         [st EXCEPT !.cmp = @ \cup {<<c, e.h>>},
                    !.doom = IF c = e.k /\ Differs(P, c, e.h) THEN @ \cup {"mismatch"} ELSE @]
    [] e.a = "Raise"  -> [st EXCEPT !.doom = @ \cup {"raise"}]
    [] e.a = "MonCall" -> [st EXCEPT !.inm[e.m] = TRUE, !.lastm[e.m] = st.now]
    [] e.a = "MonRet" ->
         LET s1 == [st EXCEPT !.inm[e.m] = FALSE, !.lastm[e.m] = st.now] IN
         IF e.v = "None" THEN s1
         ELSE LET to == {p \in MonPorts(P, e.m) : st.on[p]}
                  en(p) == [path |-> IF P.ports[p].kind = "agent" THEN P.mons[e.m].path ELSE "",
                            pairs |-> <<>>, v |-> e.v]
              IN [s1 EXCEPT !.pend = @ \cup {Obl(st, h, 0, e.m, e.v, P.hooks[h].prio, "mon") : h \in MonHooks(P, e.m)},
                            !.q = [p \in Ports(P) |-> IF p \in to /\ ~Full(P, st, p)
                                                      THEN Append(@[p], en(p)) ELSE @[p]],
                            !.drops = @ + Cardinality({p \in to : Full(P, st, p)})]
    [] e.a = "On"     -> [st EXCEPT !.on[e.p] = TRUE, !.q[e.p] = <<>>]
    [] e.a = "Wait"   -> [st EXCEPT !.rd = @ \cup {<<e.p, e.r>>}]
    [] e.a = "Get"    -> [st EXCEPT !.rd = @ \ {<<e.p, e.r>>},
                                    !.q[e.p] = IF @ = <<>> THEN @ ELSE Tail(@)]
    [] e.a = "Drain"  -> [st EXCEPT !.q[e.p] = <<>>]
    [] e.a = "Exec"   ->
         RequestAll(P, [st EXCEPT !.ex[e.x] = "run"],
                    [g \in 1..Len(GroupNames(P, e.x)) |-> GroupCalls(P, e.x, GroupNames(P, e.x)[g])[1]], "group")
    [] e.a = "ExecEnd" -> [st EXCEPT !.ex[e.x] = "left"]
    [] e.a = "WaitAll" -> [st EXCEPT !.ex[e.x] = "wait"]
    [] e.a = "WaitEnd" -> [st EXCEPT !.ex[e.x] = "all"]
    [] e.a = "WaitEv" -> [st EXCEPT !.wev = @ \cup {<<e.e, e.t>>}]
    [] e.a = "SetEv"  -> [st EXCEPT !.woken = @ \cup {w[2] : w \in {y \in st.wev : y[1] = e.e}},
                                    !.wev = {y \in @ : y[1] # e.e}]
    [] e.a = "Woke"   -> [st EXCEPT !.woken = @ \ {e.t}, !.wev = @ \ {<<e.e, e.t>>}]
    [] e.a = "Main"   -> [st EXCEPT !.main = IF e.v = 0 THEN "ret" ELSE "exc"]
    [] e.a = "Step"   -> [st EXCEPT !.now = @ + 1, !.final = (st.main = "ret")]
    [] e.a \in {"Size", "Res"} -> st
    [] OTHER -> [st EXCEPT !.ended = TRUE]

Effect(P, st, e) ==
  IF st.ended THEN st
  ELSE IF st.doom # {} /\ e.a # "End" THEN st
  ELSE [Effect0(P, st, e) EXCEPT !.i = @ + 1]
=============================================================================
