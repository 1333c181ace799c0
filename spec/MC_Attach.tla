----------------------------- MODULE MC_Attach -----------------------------
\* Attaching as it is built - every method of the environment marks the hooks
\* and ports it finds, which are shared by all models of a class; afterwards
\* the marks are looked at - against the specification, for every class of
\* models with up to MaxDecls declarations and every history of attaches and
\* detaches of two models of it and two environments.
EXTENDS Attach, TLC, Json

CONSTANTS MaxDecls, MaxLen

M(a, n, k) == [agent |-> a, name |-> n, kind |-> k]
D(k, fn, path, agent, member, agents, methods) ==
  [k |-> k, fn |-> fn, path |-> path, agent |-> agent, member |-> member, agents |-> agents, methods |-> methods]
Pool == << D("dh", "f1", "a.d", "", "", <<>>, <<>>), D("dh", "d", "", "a", "", <<>>, <<>>), D("mh", "a__m", "", "", "", <<>>, <<>>),
           D("mh", "f4", "", "a", "d", <<>>, <<>>), D("ah", "a", "", "", "", <<>>, <<>>), D("ah", "f6", "", "b", "", <<>>, <<"a.d">>),
           D("ah", "f7", "", "", "", <<"a", "b">>, <<>>), D("dp", "a__d", "", "", "", <<>>, <<>>), D("mp", "f9", "", "a", "m", <<>>, <<>>),
           D("ap", "b", "", "", "", <<>>, <<>>), D("ap", "g1", "", "", "", <<>>, <<"b.d", "a.m">>) >>
Envs == << <<M("a", "d", "driver"), M("a", "m", "monitor"), M("b", "d", "driver")>>,
           <<M("a", "d", "driver"), M("a", "m", "driver"), M("c", "m", "monitor")>> >>
Agents == << <<"a", "b">>, <<"a", "c">> >>

VARIABLES cls, hist, st, hooks, ports, infos, att, ok
\* hooks: marks of a hook, shared by the instances; ports: marks by instance
vars == <<cls, hist, st, hooks, ports, infos, att, ok>>

PP == [envs |-> Envs, agents |-> Agents, classes |-> <<cls>>, insts |-> <<1, 1>>]
K == DOMAIN cls
Clean == [k \in K |-> [any |-> FALSE, meth |-> {}]]
NoInfo == [x \in {<<e, j>> : e \in 1..2, j \in 1..3} |-> [m \in 1..2 |-> {}]]

MCInit == /\ cls \in {[j \in DOMAIN s |-> Pool[s[j]]] : s \in UNION {[1..n -> DOMAIN Pool] : n \in 1..MaxDecls}}
          /\ \A j, k \in DOMAIN cls : j < k => cls[j].fn # cls[k].fn
          /\ hist = <<>> /\ st = AttachInit(PP)
          /\ hooks = Clean /\ ports = [m \in 1..2 |-> Clean] /\ infos = NoInfo /\ att = <<0, 0>> /\ ok = 1

Hook(k) == cls[k].k \notin Ports
\* the first hook or port of a kind that names the path
FirstOf(q, kind) == LET S == {k \in K : cls[k].k = kind /\ PathOf(cls[k]) = MPath(q)}
                    IN IF S = {} THEN {} ELSE {CHOOSE k \in S : \A j \in S : k <= j}
Found(q) == {k \in K : ~Single(cls[k]) /\ Names(cls[k], q)}
            \cup (IF q.kind = "driver" THEN FirstOf(q, "dh") \cup FirstOf(q, "dp") ELSE FirstOf(q, "mh") \cup FirstOf(q, "mp"))
\* the marks after all methods of an environment have looked
Marks(e, old) ==
  [k \in K |-> [any |-> old[k].any \/ \E j \in DOMAIN Envs[e] : k \in Found(Envs[e][j]),
                meth |-> old[k].meth \cup {MPath(Envs[e][j]) : j \in {x \in DOMAIN Envs[e] : MPath(Envs[e][x]) \in SeqToSet(cls[k].methods)}}]]
Good(e, mk) == \A k \in K :
  /\ (Single(cls[k]) \/ cls[k].k = "ap") => mk[k].any
  /\ SeqToSet(cls[k].methods) \subseteq mk[k].meth
  /\ ~Single(cls[k]) => AgentsOf(cls[k]) \subseteq AgentNames(PP, e)

Drop(inf, m, e) == [x \in DOMAIN inf |-> IF x[1] = e THEN [inf[x] EXCEPT ![m] = {}] ELSE inf[x]]

Attach_(m, e) ==
  /\ Len(hist) < MaxLen
  /\ LET inf0 == IF att[m] # 0 THEN Drop(infos, m, att[m]) ELSE infos
         mk == Marks(e, Clean)         \* marks are cleared before
         all == [k \in K |-> IF Hook(k) THEN mk[k] ELSE mk[k]]
         inf1 == [x \in DOMAIN inf0 |-> IF x[1] = e THEN [inf0[x] EXCEPT ![m] = Found(Envs[e][x[2]])] ELSE inf0[x]]
         g == Good(e, all)
     IN /\ ok' = IF g THEN 1 ELSE 0
        /\ hooks' = [k \in K |-> IF Hook(k) THEN mk[k] ELSE hooks[k]]
        /\ ports' = [ports EXCEPT ![m] = mk]
        /\ infos' = IF g THEN inf1 ELSE Drop(inf1, m, e)
        /\ att' = [att EXCEPT ![m] = IF g THEN e ELSE 0]
        /\ hist' = Append(hist, [a |-> "Attach", m |-> m, e |-> e])
        /\ st' = [st EXCEPT !.att[m] = IF Fits(PP, m, e) THEN e ELSE 0]
  /\ UNCHANGED cls
Unattach_(m, e) ==
  /\ Len(hist) < MaxLen
  /\ IF att[m] = e THEN infos' = Drop(infos, m, e) /\ att' = [att EXCEPT ![m] = 0] /\ hooks' = Clean /\ ports' = [ports EXCEPT ![m] = Clean]
     ELSE UNCHANGED <<infos, att, hooks, ports>>
  /\ ok' = 1
  /\ hist' = Append(hist, [a |-> "Unattach", m |-> m, e |-> e])
  /\ st' = IF st.att[m] = e THEN [st EXCEPT !.att[m] = 0] ELSE st
  /\ UNCHANGED cls
Stop == /\ Len(hist) = MaxLen /\ hist[MaxLen].a # "Stop"
        /\ PrintT(ToJson([cls |-> cls, ops |-> hist]))
        /\ FALSE
        /\ UNCHANGED vars
Next == (\E m, e \in 1..2 : Attach_(m, e) \/ Unattach_(m, e)) \/ Stop
MCSpec == MCInit /\ [][Next]_vars

\* never mind a port of an agent without methods
Agree == \A m \in 1..2 : att[m] = st.att[m]
\* every connection is one the specification asks for, and the other way round
Connected == \A e \in 1..2, j \in 1..3, m \in 1..2 :
  infos[<<e, j>>][m] = IF st.att[m] = e THEN {k \in K : Names(cls[k], Envs[e][j])} ELSE {}
Silent == \A m \in 1..2 : att[m] = 0 => \A x \in DOMAIN infos : infos[x][m] = {}
=============================================================================
