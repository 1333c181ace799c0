-------------------------------- MODULE Bind --------------------------------
\* Binding of bundles to devices (bundle.py).
\*
\* P.classes: each [nodes, leaves].  nodes[1] is the bundle itself, then
\* its sub-bundles (members of bundle lists included): [path, rule, name];
\* leaves: its signals [path, loc, nodes]: loc is the name the signal is
\* bound by in its bundle, nodes the bundles it is in, outermost first.
\* P.insts[i]: the class of instance i.  P.duts[d]: the pins of device d.
EXTENDS Rules, TLC

Cls(P, i) == P.classes[P.insts[i]]
Leaves(P, i) == DOMAIN Cls(P, i).leaves
\* the bundles that signal k of instance i is in, from bundle n inwards
Under(P, i, n) == {k \in Leaves(P, i) : n \in SeqToSet(Cls(P, i).leaves[k].nodes)}
Inner(P, i, n, k) == LET ns == Cls(P, i).leaves[k].nodes
                         m == CHOOSE m \in DOMAIN ns : ns[m] = n
                     IN SubSeq(ns, m, Len(ns))
EligibleAt(P, st, i, n, k, pin) == NameAt(st.rules[i], Inner(P, i, n, k), pin) = Cls(P, i).leaves[k].loc
Eligible(P, st, i, k, pin) == EligibleAt(P, st, i, 1, k, pin)

Pins(P, d) == {P.duts[d].pins[j] : j \in DOMAIN P.duts[d].pins}

BindInit(P) == [rules |-> [i \in DOMAIN P.insts |-> [n \in DOMAIN Cls(P, i).nodes |-> Cls(P, i).nodes[n].rule]],
                dut |-> [i \in DOMAIN P.insts |-> [k \in Leaves(P, i) |-> 0]],
                con |-> [i \in DOMAIN P.insts |-> [k \in Leaves(P, i) |-> ""]],
                acc |-> [i \in DOMAIN P.insts |-> [k \in Leaves(P, i) |-> FALSE]],
                \* bundles whose own last bind was followed by one of a bundle inside them
                split |-> [i \in DOMAIN P.insts |-> [n \in DOMAIN Cls(P, i).nodes |-> FALSE]],
                \* the write mode that was set last for a bundle or one it is inside of
                mode |-> [i \in DOMAIN P.insts |-> [n \in DOMAIN Cls(P, i).nodes |-> Cls(P, i).nodes[n].mode]],
                pmode |-> [d \in DOMAIN P.duts |-> [j \in DOMAIN P.duts[d].pins |-> "-"]],
                ended |-> FALSE]

(* ---- what may be connected after bundle n of instance i is bound to d    *)
Conflicts(P, st, i, n, d, con) ==      \* con: pin name or "" by signal
  LET U == Under(P, i, n)
      C(k) == {q \in Pins(P, d) : EligibleAt(P, st, i, n, k, q)}
      R(q) == {k \in U : EligibleAt(P, st, i, n, k, q)}
  IN (IF \E k \in U : con[k] # "" /\ con[k] \notin C(k) THEN {"bind_wrong"} ELSE {})
     \cup (IF \E k \in U : con[k] = "" /\ \E q \in C(k) : R(q) = {k} THEN {"bind_missing"} ELSE {})
     \cup (IF \E k, m \in U : k < m /\ con[k] # "" /\ con[k] = con[m] THEN {"bind_twice"} ELSE {})

(* ---- names                                                              *)
Elem(x) == IF x.i < 0 THEN x.n ELSE x.n \o "[" \o ToString(x.i) \o "]"
RECURSIVE Full(_)
Full(p) == IF Len(p) = 1 THEN Elem(p[1]) ELSE Elem(p[1]) \o "." \o Full(Tail(p))
\* A bundle inside another one has the name it has there, once it has got it
LevelName(P, i, n, p, named) ==
  LET at == Cls(P, i).nodes[n].path
      own == IF n = 1 THEN P.names[i] ELSE IF named THEN Elem(at[Len(at)]) ELSE ""
      rest == Full(SubSeq(p, Len(at) + 1, Len(p)))
  IN IF own = "" THEN rest ELSE own \o "." \o rest

(* The rule of a signal in words: the rules along its path up to a         *)
(* dictionary, of which the pins that lead to the signal are given         *)
Bar(s) == LET RECURSIVE B(_)
              B(j) == IF j > Len(s) THEN "" ELSE (IF j > 1 THEN "|" ELSE "") \o s[j] \o B(j + 1)
          IN IF Len(s) > 1 THEN "(" \o B(1) \o ")" ELSE B(1)
RECURSIVE InWords(_, _, _)
InWords(rules, ns, loc) ==
  IF ns = <<>> THEN loc
  ELSE LET r == rules[ns[1]] IN
    CASE r.k = "prefix" -> r.pre \o InWords(rules, Tail(ns), loc)
      [] r.k = "dict" ->
           LET M == SelectSeq([j \in DOMAIN r.map |-> r.map[j].pin], LAMBDA q : NameAt(rules, ns, q) = loc)
           IN IF M = <<>> THEN "<No Matching Signal in Dict>" ELSE Bar(M)
      [] OTHER -> r.text \o " -> " \o InWords(rules, Tail(ns), loc)

(* A dictionary names a pin for several signals: any of them may get it    *)
From(ns, m) == SubSeq(ns, m, Len(ns))
Shared(P, st, i, top, k) ==
  LET L == Cls(P, i).leaves IN
  \E m \in {x \in DOMAIN L[k].nodes : L[k].nodes[x] \in SeqToSet(Inner(P, i, top, k))} : LET r == st.rules[i][L[k].nodes[m]] IN
    /\ r.k = "dict"
    /\ \E j \in DOMAIN r.map :
         /\ NameAt(st.rules[i], From(L[k].nodes, m), r.map[j].pin) = L[k].loc
         /\ \E x \in DOMAIN L \ {k} : /\ m \in DOMAIN L[x].nodes
                                      /\ L[x].nodes[m] = L[k].nodes[m]
                                      /\ NameAt(st.rules[i], From(L[x].nodes, m), r.map[j].pin) = L[x].loc

(* ---- what is observed after every operation                             *)
Conn(P, st, i, k) == [d |-> IF st.con[i][k] = "" THEN 0 ELSE st.dut[i][k], pin |-> st.con[i][k],
                      how |-> IF st.con[i][k] # "" THEN "pin" ELSE IF st.dut[i][k] # 0 /\ st.acc[i][k] THEN "dummy" ELSE "refuse"]
Users(P, st, d, j) == Cardinality({x \in UNION {{<<i, k>> : k \in Leaves(P, i)} : i \in DOMAIN P.insts} :
                          st.dut[x[1]][x[2]] = d /\ st.con[x[1]][x[2]] = P.duts[d].pins[j]})
(* the device whose clock a bundle of the tree follows                     *)
Clock(P, st, i, n) == IF \E k \in Under(P, i, n) : st.con[i][k] # ""
                      THEN st.dut[i][CHOOSE k \in Under(P, i, n) : st.con[i][k] # ""]
                      ELSE 0

ObsBad(P, s, o) ==
     (IF \E i \in DOMAIN P.insts : \E k \in Leaves(P, i) :
           o.conn[i][k].d # Conn(P, s, i, k).d \/ o.conn[i][k].pin # Conn(P, s, i, k).pin THEN {"conn"} ELSE {})
  \cup (IF \E i \in DOMAIN P.insts : \E k \in Leaves(P, i) : o.conn[i][k].how # Conn(P, s, i, k).how THEN {"access"} ELSE {})
  \cup (IF \E d \in DOMAIN P.duts :
             \/ SeqToSet(o.unc[d]) # {P.duts[d].pins[j] : j \in {x \in DOMAIN P.duts[d].pins : Users(P, s, d, x) = 0}}
             \/ SeqToSet(o.multi[d]) # {P.duts[d].pins[j] : j \in {x \in DOMAIN P.duts[d].pins : Users(P, s, d, x) > 1}}
        THEN {"detect_dut"} ELSE {})
  \cup (IF \E i \in DOMAIN P.insts : \E n \in DOMAIN Cls(P, i).nodes : ~s.split[i][n] /\ o.clock[i][n] # Clock(P, s, i, n)
        THEN {"clock"} ELSE {})
  \cup (IF \E d \in DOMAIN P.duts : \E j \in DOMAIN P.duts[d].pins : o.modes[d][j] # s.pmode[d][j]
        THEN {"mode"} ELSE {})

LeafMode(P, st, i, k) == LET ns == Cls(P, i).leaves[k].nodes IN st.mode[i][ns[Len(ns)]]
SetModes(P, st, i, n) ==
  [st EXCEPT !.pmode = [d \in DOMAIN @ |-> [j \in DOMAIN @[d] |->
     LET K == {k \in Under(P, i, n) : st.con[i][k] = P.duts[d].pins[j] /\ st.dut[i][k] = d /\ LeafMode(P, st, i, k) # "-"}
     IN IF P.duts[d].outs[j] = 0 /\ K # {} THEN LeafMode(P, st, i, CHOOSE k \in K : TRUE) ELSE @[d][j]]]]

(* Events: Bind i n d acc missing obs (bundle n of instance i); Rule i n   *)
(* rule obs; Mode i n m obs; Query i name any which rules names; New         *)
(* (another instance of some class is made and used) obs; End              *)
Inside(P, i, n) == {m \in DOMAIN Cls(P, i).nodes : LET p == Cls(P, i).nodes[n].path
                                                       q == Cls(P, i).nodes[m].path
                                                   IN Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p}
Op(P, st, e) ==
  CASE e.a = "Bind" ->
         LET U == Under(P, e.i, e.n)
             s1 == [st EXCEPT !.dut[e.i] = [k \in DOMAIN @ |-> IF k \in U THEN e.d ELSE @[k]],
                              !.acc[e.i] = [k \in DOMAIN @ |-> IF k \in U THEN e.acc = 1 ELSE @[k]],
                              !.con[e.i] = [k \in DOMAIN @ |-> IF k \in U THEN e.obs.conn[e.i][k].pin ELSE @[k]],
                              !.split[e.i] = [m \in DOMAIN @ |-> IF m \in Inside(P, e.i, e.n) THEN FALSE
                                                                 ELSE @[m] \/ e.n \in Inside(P, e.i, m)]]
         IN SetModes(P, s1, e.i, e.n)
    [] e.a = "Rule" -> [st EXCEPT !.rules[e.i][e.n] = e.rule]
    [] e.a = "Mode" -> SetModes(P, [st EXCEPT !.mode[e.i] = [m \in DOMAIN @ |-> IF m \in Inside(P, e.i, e.n) THEN e.m ELSE @[m]]],
                                e.i, e.n)
    [] e.a = "End" -> [st EXCEPT !.ended = TRUE]
    [] OTHER -> st

(* The warnings about signals that are not found                           *)
Report(P, st, e, con, named) ==
  LET U == Under(P, e.i, e.n)
      L == Cls(P, e.i).leaves
      Nm(k) == LevelName(P, e.i, e.n, L[k].path, named)
  IN /\ {e.missing[m].n : m \in DOMAIN e.missing} = {Nm(k) : k \in {x \in U : con[x] = ""}}
     /\ \A k \in U : con[k] = "" /\ ~Shared(P, st, e.i, e.n, k) =>
          \E m \in DOMAIN e.missing :
             e.missing[m] = [n |-> Nm(k), rule |-> InWords(st.rules[e.i], Inner(P, e.i, e.n, k), L[k].loc)]
     /\ Len(e.missing) = Cardinality(SeqToSet(e.missing))

Guard(P, st, e) ==
  IF st.ended THEN {"after_end"}
  ELSE IF e.a = "End" THEN {}
  ELSE IF e.a \notin {"Bind", "Rule", "Mode", "Query", "New"} THEN {"hang"}
  ELSE
    (IF e.a = "Bind"
     THEN LET con == [k \in Leaves(P, e.i) |-> e.obs.conn[e.i][k].pin] IN
          Conflicts(P, st, e.i, e.n, e.d, con)
          \cup (IF Report(P, st, e, con, TRUE) \/ (e.n # 1 /\ Report(P, st, e, con, FALSE)) THEN {} ELSE {"report"})
     ELSE IF e.a = "Query"
     THEN (IF e.any # (IF \E k \in Leaves(P, e.i) : Eligible(P, st, e.i, k, e.name) THEN 1 ELSE 0) THEN {"detect"} ELSE {})
     \cup (LET K == {k \in Leaves(P, e.i) : Eligible(P, st, e.i, k, e.name)}     \* of several any may be named
               W == {k \in Leaves(P, e.i) : e.which[k] = 1}
           IN IF W \subseteq K /\ (K # {} => W # {}) THEN {} ELSE {"detect_specific"})
     \cup (IF \E k \in Leaves(P, e.i) : (~Shared(P, st, e.i, 1, k) /\
                  e.rules[k] # InWords(st.rules[e.i], Cls(P, e.i).leaves[k].nodes, Cls(P, e.i).leaves[k].loc))
              \/ e.nrules # Cardinality(Leaves(P, e.i))
           THEN {"rules"} ELSE {})
     \cup (IF SeqToSet(e.names) # {Full(Cls(P, e.i).leaves[k].path) : k \in Leaves(P, e.i)}
              \/ Len(e.names) # Cardinality(Leaves(P, e.i)) THEN {"names"} ELSE {})
     ELSE {})
    \cup ObsBad(P, Op(P, st, e), e.obs)

Effect(P, st, e) == IF st.ended THEN st ELSE Op(P, st, e)
=============================================================================
