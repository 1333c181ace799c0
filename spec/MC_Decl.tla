------------------------------ MODULE MC_Decl ------------------------------
(***************************************************************************)
(* As built: an executor checks a call in steps and files it in a          *)
(* dictionary of groups; a coverage group checks the bins one by one and   *)
(* then the name; hooks and ports check what they are given one argument   *)
(* after the other - against the contract, for every short history.  The   *)
(* histories are printed and tried on the real code.                       *)
(***************************************************************************)
EXTENDS Decl, TLC, Json

CONSTANTS MaxLen, What      \* What: "decl", "exec" or "cov"

Prog == [len |-> 1]
Names == {"", "a"}
Decls ==
  {[k |-> "decl", kind |-> k, path |-> p, agent |-> a, name |-> n, agents |-> 0, prio |-> q, order |-> o, max |-> NONE] :
      k \in {"driver_hook"}, p \in {"", "a.d"}, a \in Names, n \in {"", "d"}, q \in {NONE, -1, 0, 99, 100}, o \in {"", "dut_first", "first"}}
  \cup {[k |-> "decl", kind |-> "monitor_hook", path |-> p, agent |-> a, name |-> n, agents |-> 0, prio |-> q, order |-> "", max |-> NONE] :
      p \in {"", "a.d"}, a \in Names, n \in {"", "d"}, q \in {NONE, -1, 0, 99, 100}}
  \cup {[k |-> "decl", kind |-> "agent_hook", path |-> "", agent |-> a, name |-> "", agents |-> n, prio |-> q, order |-> o, max |-> NONE] :
      a \in Names, n \in 0..1, q \in {NONE, -1, 0, 99, 100}, o \in {"", "dut_first", "first"}}
  \cup {[k |-> "decl", kind |-> k, path |-> p, agent |-> a, name |-> n, agents |-> 0, prio |-> NONE, order |-> "", max |-> m] :
      k \in {"DriverPort", "MonitorPort"}, p \in {"", "a.d"}, a \in Names, n \in {"", "d"}, m \in {NONE, -2, -1, 0, 1}}
  \cup {[k |-> "decl", kind |-> "AgentPort", path |-> "", agent |-> a, name |-> "", agents |-> n, prio |-> NONE, order |-> "", max |-> m] :
      a \in Names, n \in 0..1, m \in {NONE, -2, -1, 0, 1}}
Adds == {[k |-> "add", g |-> g, drv |-> d, prio |-> q, order |-> o] :
           g \in {"", "g1"}, d \in 0..1, q \in {NONE, -1, 99, 100}, o \in {"", "dut_first"}}
Points == {[k |-> "point", name |-> n, bins |-> b] : n \in {"p1", "p2"}, b \in {"one", "dict", "listbad", "value"}}
          \cup {[k |-> x, name |-> n] : x \in {"ask", "drop"}, n \in {"p1", "p2"}}
Ops == CASE What = "decl" -> Decls [] What = "exec" -> Adds [] What = "cov" -> Points

VARIABLES log, st, coros, pts, bad
vars == <<log, st, coros, pts, bad>>
\* coros: the executor's dictionary, a sequence of <<group, calls>>; pts: the group's dictionary
MCInit == /\ log = <<>> /\ coros = <<>> /\ pts = <<>> /\ bad = {}
          /\ st = IF What = "exec" THEN Effect(Prog, DeclInit(Prog), [a |-> "Open", exit |-> "all"]) ELSE DeclInit(Prog)

File(d, g, n) ==
  IF \E i \in DOMAIN d : d[i][1] = g
  THEN [i \in DOMAIN d |-> IF d[i][1] = g THEN <<g, Append(d[i][2], n)>> ELSE d[i]]
  ELSE Append(d, <<g, <<n>>>>)

(* the arguments one after the other                                       *)
DeclOk(o) ==
  IF o.kind \in {"agent_hook", "AgentPort"}
  THEN IF o.kind = "AgentPort" THEN o.max = NONE \/ o.max > 0 \/ o.max = -1
       ELSE ~(o.agent # "" /\ o.agents = 1) /\ (o.prio = NONE \/ (o.prio >= 0 /\ o.prio < 100))
            /\ (o.order = "" \/ o.order = "model_first" \/ o.order = "dut_first")
  ELSE /\ o.path = "" \/ (o.agent = "" /\ o.name = "")
       /\ o.agent # "" \/ o.name = ""
       /\ (o.prio = NONE \/ (o.prio >= 0 /\ o.prio < 100))
       /\ (o.order = "" \/ o.order = "model_first" \/ o.order = "dut_first")
       /\ (o.max = NONE \/ o.max > 0 \/ o.max = -1)

Emit(e) == bad' = bad \cup Guard(Prog, st, e) /\ st' = Effect(Prog, st, e)

Do == /\ Len(log) < MaxLen /\ ~st.ended
      /\ \E o \in Ops :
           /\ log' = Append(log, o)
           /\ CASE o.k = "decl" ->
                     /\ Emit([a |-> "Decl", kind |-> o.kind, path |-> o.path, agent |-> o.agent, name |-> o.name, agents |-> o.agents,
                              prio |-> o.prio, order |-> o.order, max |-> o.max, ok |-> IF DeclOk(o) THEN 1 ELSE 0])
                     /\ UNCHANGED <<coros, pts>>
                [] o.k = "add" ->
                     LET g == IF o.g # "" THEN o.g ELSE IF o.drv = 1 THEN "a.d" ELSE "work"
                         ok == /\ o.prio # NONE => o.prio >= 0 /\ o.prio <= 99 /\ o.drv = 1
                               /\ o.order # "" => o.drv = 1
                     IN /\ Emit([a |-> "Add", n |-> Len(log) + 1, g |-> g, drv |-> o.drv, prio |-> o.prio, order |-> o.order,
                                 ok |-> IF ok THEN 1 ELSE 0])
                        /\ coros' = IF ok THEN File(coros, g, Len(log) + 1) ELSE coros
                        /\ UNCHANGED pts
                [] o.k = "point" ->
                     LET ok == o.bins # "value" /\ ~In(o.name, pts) /\ o.bins # "listbad" IN
                     /\ Emit([a |-> "Point", name |-> o.name, bins |-> o.bins, ok |-> IF ok THEN 1 ELSE 0])
                     /\ pts' = IF ok THEN Append(pts, o.name) ELSE pts
                     /\ UNCHANGED coros
                [] OTHER ->
                     /\ Emit([a |-> IF o.k = "ask" THEN "Ask" ELSE "Drop", name |-> o.name, ok |-> IF In(o.name, pts) THEN 1 ELSE 0])
                     /\ pts' = IF o.k = "drop" THEN SelectSeq(pts, LAMBDA x : x # o.name) ELSE pts
                     /\ UNCHANGED coros

(* what is left of the history                                             *)
Finish == /\ ~st.ended /\ (Len(log) = MaxLen \/ What # "decl")
          /\ PrintT(ToJson([what |-> What, ops |-> log]))
          /\ st' = [st EXCEPT !.ended = TRUE]
          /\ bad' = bad \cup
               (CASE What = "exec" ->
                       Guard(Prog, [st EXCEPT !.ran = {st.adds[i].n : i \in DOMAIN st.adds}], [a |-> "Close", ok |-> 1, res |-> coros])
                  [] What = "cov" -> Guard(Prog, st, [a |-> "Points", l |-> pts])
                  [] OTHER -> {})
          /\ UNCHANGED <<log, coros, pts>>

MCSpec == MCInit /\ [][Do \/ Finish]_vars

Contract == bad = {}
NoEmptyGroup == \A i \in DOMAIN coros : coros[i][2] # <<>>
Distinct == \A i, j \in DOMAIN pts : pts[i] = pts[j] => i = j
=============================================================================
