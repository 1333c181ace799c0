-------------------------------- MODULE Decl --------------------------------
(***************************************************************************)
(* What cannot be meant is refused where it is written, and has no effect; *)
(* everything else is accepted: declarations of hooks and ports, calls     *)
(* added to an executor, points of a coverage group, lists of signals and  *)
(* bundles and values for them, delays, models to attach, coroutines as    *)
(* hooks.                                                                  *)
(*                                                                         *)
(* P.len is the length of a list of signals.                               *)
(* An event says what was tried; e.ok = 1 if it was accepted.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

NONE == -999        \* a number that is not given; "" : a name that is not given

DeclInit(P) ==
  [ open |-> "",                                   \* the exit condition of the executor that is open
    adds |-> <<>>,                                 \* what it has accepted: [n, g]
    ran  |-> {},
    pts  |-> <<>>,                                 \* points of the coverage group
    vals |-> [i \in 1..P.len |-> 0],               \* pins of the list of signals
    ended |-> FALSE ]

----------------------------------------------------------------------------
(* Hooks and ports: [kind, path, agent, name, agents, prio, order, max].   *)
(* agents = 1: a list of agents is given                                   *)
NameClash(e) == (e.path # "" /\ (e.agent # "" \/ e.name # "")) \/ (e.name # "" /\ e.agent = "")
BadPrio(p)   == p # NONE /\ p \notin 0..99
BadOrder(o)  == o \notin {"", "model_first", "dut_first"}
BadSize(n)   == n # NONE /\ n # -1 /\ n <= 0

Contradicts(e) ==
  CASE e.kind = "driver_hook"  -> NameClash(e) \/ BadPrio(e.prio) \/ BadOrder(e.order)
    [] e.kind = "monitor_hook" -> NameClash(e) \/ BadPrio(e.prio)
    [] e.kind = "agent_hook"   -> (e.agent # "" /\ e.agents = 1) \/ BadPrio(e.prio) \/ BadOrder(e.order)
    [] e.kind \in {"DriverPort", "MonitorPort"} -> NameClash(e) \/ BadSize(e.max)
    [] e.kind = "AgentPort"    -> BadSize(e.max)

(* Calls of an executor: [n, g, drv, prio, order]; drv = 1: a driver        *)
(* method's                                                                *)
CannotAdd(e) == (e.drv = 0 /\ (e.prio # NONE \/ e.order # "")) \/ BadPrio(e.prio)

In(x, s) == \E i \in DOMAIN s : s[i] = x
Groups(st) ==
  LET A == st.adds
      R[i \in 0..Len(A)] == IF i = 0 THEN <<>>
                            ELSE IF In(A[i].g, R[i - 1]) THEN R[i - 1] ELSE Append(R[i - 1], A[i].g)
  IN R[Len(A)]
Results(st) == [k \in DOMAIN Groups(st) |->
                  <<Groups(st)[k], LET s == SelectSeq(st.adds, LAMBDA a : a.g = Groups(st)[k])
                                   IN [j \in DOMAIN s |-> s[j].n]>>]

(* Coverage points: [name, bins]: bins "one", "dict", "list" can be called, *)
(* "value", "dictbad", "listbad" cannot, "dup": can                        *)
BadPoint(st, e) == In(e.name, st.pts) \/ e.bins \in {"value", "dictbad", "listbad"}

Refused(P, st, e) ==
  CASE e.a = "Decl"   -> Contradicts(e)
    [] e.a = "Add"    -> CannotAdd(e)
    [] e.a = "Close"  -> st.open \notin {"all", "any", "none"}
    [] e.a = "Point"  -> BadPoint(st, e)
    [] e.a \in {"Ask", "Drop", "Reset"} -> ~In(e.name, st.pts)
    [] e.a = "List"   -> e.n <= 0 \/ e.fmt = 0
    [] e.a = "Assign" -> Len(e.vals) # P.len
    [] e.a = "Delay"  -> e.n < 0
    [] e.a = "Attach" -> e.model = 0
    [] e.a = "Call"   -> e.coro = 1
    [] OTHER -> FALSE

Tried == {"Decl", "Add", "Close", "Point", "Ask", "Drop", "Reset", "List", "Assign", "Delay", "Attach", "Call"}

(* Events *)
Guard(P, st, e) ==
  IF st.ended THEN {"after_end"}
  ELSE (IF e.a \notin Tried THEN {}
        ELSE IF Refused(P, st, e) THEN (IF e.ok = 1 THEN {"decl_accepted"} ELSE {})
        ELSE IF e.ok = 1 THEN {} ELSE {"decl_refused"})
   \cup
  CASE e.a = "Open"   -> IF st.open = "" THEN {} ELSE {"op_unexpected"}
    [] e.a = "Ran"    -> IF \/ st.open \notin {"all", "any", "none"}
                            \/ e.n \in st.ran \/ ~\E i \in DOMAIN st.adds : st.adds[i].n = e.n
                         THEN {"decl_effect"} ELSE {}
    [] e.a = "Close"  ->
         IF Refused(P, st, e) THEN {}
         ELSE IF e.res # Results(st) \/ st.ran # {st.adds[i].n : i \in DOMAIN st.adds} THEN {"decl_effect"} ELSE {}
    [] e.a = "Points" -> IF e.l = st.pts THEN {} ELSE {"decl_effect"}
    [] e.a = "Assign" -> IF e.pins = (IF Refused(P, st, e) THEN st.vals ELSE e.vals) THEN {} ELSE {"decl_effect"}
    [] e.a = "Call"   -> IF e.ran = 1 - e.coro /\ e.hooks = 1 - e.coro THEN {} ELSE {"decl_effect"}
    [] e.a = "End"    -> IF e.v = 0 THEN {} ELSE {"decl_fails"}
    [] e.a \in Tried  -> {}
    [] OTHER -> {"hang"}

Effect(P, st, e) ==
  IF st.ended THEN st
  ELSE IF e.a \in Tried \ {"Close"} /\ Refused(P, st, e) THEN st
  ELSE
  CASE e.a = "Open"   -> [st EXCEPT !.open = e.exit, !.adds = <<>>, !.ran = {}]
    [] e.a = "Add"    -> [st EXCEPT !.adds = Append(@, [n |-> e.n, g |-> e.g])]
    [] e.a = "Ran"    -> [st EXCEPT !.ran = @ \cup {e.n}]
    [] e.a = "Close"  -> [st EXCEPT !.open = ""]
    [] e.a = "Point"  -> [st EXCEPT !.pts = Append(@, e.name)]
    [] e.a = "Drop"   -> [st EXCEPT !.pts = SelectSeq(@, LAMBDA x : x # e.name)]
    [] e.a = "Assign" -> [st EXCEPT !.vals = e.vals]
    [] e.a \in Tried \cup {"Points"} -> st
    [] OTHER -> [st EXCEPT !.ended = TRUE]
=============================================================================
