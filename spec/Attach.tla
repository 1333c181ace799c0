------------------------------- MODULE Attach -------------------------------
(***************************************************************************)
(* Attaching models to environments (env.py, model.py).                    *)
(*                                                                         *)
(* P.envs[e]: the methods of environment e, each [agent, name, kind] with  *)
(* kind "driver" or "monitor", and the agents it has, P.agents[e].         *)
(* P.classes: the declarations of a class of models, in any order; each    *)
(* [k, fn, path, agent, member, agents, methods]: k is dh, mh, ah (hooks)  *)
(* or dp, mp, ap (ports), fn the name of the function or attribute.        *)
(* P.insts[m]: the class of model m.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

SeqToSet(s) == {s[j] : j \in DOMAIN s}
Decls(P, m) == P.classes[P.insts[m]]

RECURSIVE Dots(_)      \* every "__" becomes "."
Dots(s) == IF Len(s) < 2 THEN s
           ELSE IF SubSeq(s, 1, 2) = "__" THEN "." \o (IF Len(s) = 2 THEN "" ELSE Dots(SubSeq(s, 3, Len(s))))
           ELSE SubSeq(s, 1, 1) \o Dots(SubSeq(s, 2, Len(s)))

(* ---- what a declaration names                                           *)
Single(d) == d.k \notin {"ah", "ap"}
Wanted(d) == IF d.k \in {"dh", "dp"} THEN "driver" ELSE "monitor"
PathOf(d) == IF d.path # "" THEN d.path
             ELSE IF d.agent # "" THEN d.agent \o "." \o (IF d.member # "" THEN d.member ELSE d.fn)
             ELSE Dots(d.fn)
AgentsOf(d) == IF d.agent # "" THEN {d.agent} \cup SeqToSet(d.agents)
               ELSE IF d.agents = <<>> /\ d.methods = <<>> THEN {d.fn}
               ELSE SeqToSet(d.agents)

MPath(q) == q.agent \o "." \o q.name
Methods(P, e) == SeqToSet(P.envs[e])
AgentNames(P, e) == SeqToSet(P.agents[e])

Names(d, q) == IF Single(d) THEN q.kind = Wanted(d) /\ MPath(q) = PathOf(d)
               ELSE q.agent \in AgentsOf(d) \/ MPath(q) \in SeqToSet(d.methods)

Resolves(P, e, d) ==
  IF Single(d) THEN \E q \in Methods(P, e) : Names(d, q)
  ELSE /\ AgentsOf(d) \subseteq AgentNames(P, e)
       /\ SeqToSet(d.methods) \subseteq {MPath(q) : q \in Methods(P, e)}
(* A model has one hook and one port of a kind for a method                *)
Clash(P, m) == \E j, k \in DOMAIN Decls(P, m) :
   LET a == Decls(P, m)[j]
       b == Decls(P, m)[k]
   IN j < k /\ Single(a) /\ a.k = b.k /\ PathOf(a) = PathOf(b)
Fits(P, m, e) == ~Clash(P, m) /\ \A k \in DOMAIN Decls(P, m) : Resolves(P, e, Decls(P, m)[k])
(* A port of an agent without methods never gets anything: may be refused  *)
Idle(P, m, e) == \E k \in DOMAIN Decls(P, m) : Decls(P, m)[k].k = "ap" /\ ~\E q \in Methods(P, e) : Names(Decls(P, m)[k], q)

AttachInit(P) == [att |-> [m \in DOMAIN P.insts |-> 0], ended |-> FALSE]

(* ---- who hears of method q of environment e                             *)
Ports == {"dp", "mp", "ap"}
Hears(P, st, e, q) ==
  UNION {LET K == {k \in DOMAIN Decls(P, m) : Names(Decls(P, m)[k], q)}
             R == {k \in K : Decls(P, m)[k].k \in Ports}
         IN {<<m, k>> : k \in (IF q.kind = "driver" /\ R # {} THEN R ELSE K)}    \* ports replace the hooks of a driver
         : m \in {x \in DOMAIN P.insts : st.att[x] = e}}

Agentwise(P, x) == ~Single(Decls(P, x[1])[x[2]])
HeardBad(P, st, e, q, got) ==
  LET H == Hears(P, st, e, q)
      G == {<<got[j].m, got[j].k>> : j \in DOMAIN got}
  IN (IF H \ G # {} THEN {"not_notified"} ELSE {})
     \cup (IF G \ H # {} THEN {"notified"} ELSE {})
     \cup (IF Len(got) # Cardinality(G) THEN {"notified_twice"} ELSE {})
     \cup (IF \E j \in DOMAIN got : got[j].ok # 1 \/ got[j].path # (IF Agentwise(P, <<got[j].m, got[j].k>>) THEN MPath(q) ELSE "")
           THEN {"notified_wrong"} ELSE {})

(* ---- what an environment and its agents say they have                   *)
FindBad(P, e) == \E x \in DOMAIN P.envs :
  \/ SeqToSet(e.names[x]) # AgentNames(P, x) \/ Len(e.names[x]) # Cardinality(AgentNames(P, x))
  \/ SeqToSet(e.lists[x]) # Methods(P, x) \/ Len(e.lists[x]) # Cardinality(Methods(P, x))
  \/ \E j \in DOMAIN e.finds[x] :
        LET f == e.finds[x][j]
            has(k) == IF [agent |-> f.agent, name |-> f.name, kind |-> k] \in Methods(P, x) THEN 1 ELSE 0
        IN f.d # has("driver") \/ f.m # has("monitor") \/ f.any # has("driver") + has("monitor")

(* Events: Find (what is there); Attach m e ok heard; Unattach m e heard; Check heard; End.      *)
(* heard[e][j]: who heard of a call of P.envs[e][j] made afterwards.       *)
After(P, st, e) ==
  CASE e.a = "Attach" -> [st EXCEPT !.att[e.m] = IF e.ok = 1 THEN e.e ELSE 0]
    [] e.a = "Unattach" -> IF st.att[e.m] = e.e THEN [st EXCEPT !.att[e.m] = 0] ELSE st
    [] e.a = "End" -> [st EXCEPT !.ended = TRUE]
    [] OTHER -> st

Guard(P, st, e) ==
  IF st.ended THEN {"after_end"}
  ELSE IF e.a = "End" THEN {}
  ELSE IF e.a = "Find" THEN (IF FindBad(P, e) THEN {"lookup"} ELSE {})
  ELSE IF e.a \notin {"Attach", "Unattach", "Check"} THEN {"hang"}
  ELSE (IF e.a = "Attach" /\ ~Idle(P, e.m, e.e) /\ e.ok # (IF Fits(P, e.m, e.e) THEN 1 ELSE 0)
        THEN {IF e.ok = 1 THEN "accepted" ELSE "refused"} ELSE {})
       \cup (IF e.a = "Attach" /\ Idle(P, e.m, e.e) /\ e.ok = 1 /\ ~Fits(P, e.m, e.e) THEN {"accepted"} ELSE {})
       \cup UNION {HeardBad(P, After(P, st, e), x, P.envs[x][j], e.heard[x][j]) :
                   <<x, j>> \in UNION {{<<y, i>> : i \in DOMAIN P.envs[y]} : y \in DOMAIN P.envs}}
       \cup (IF \E m \in DOMAIN P.insts : e.att[m] # (IF After(P, st, e).att[m] > 0 THEN 1 ELSE 0) THEN {"is_attached"} ELSE {})

Effect(P, st, e) == IF st.ended THEN st ELSE After(P, st, e)
=============================================================================
