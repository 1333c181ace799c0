------------------------------- MODULE MC_Dbg -------------------------------
(***************************************************************************)
(* The commands as built: sequences of operations on a signal whose writes *)
(* have a mode (normal, force, release) and are dropped if they would not  *)
(* change the value, unless told otherwise - against the contract, for     *)
(* every short sequence of commands.  The sequences are printed and given  *)
(* to the real debugger.                                                   *)
(***************************************************************************)
EXTENDS Dbg, TLC, Json

CONSTANTS MaxCmds, Values

Prog == [sigs |-> <<[name |-> "a", width |-> 2, count |-> 1, depth |-> 1], [name |-> "b", width |-> 2, count |-> 0, depth |-> 2]>>]
C(a, n, v) == [a |-> a, n |-> n, v |-> v, s |-> IF a = "print" THEN "hex" ELSE "", ok |-> 1]
Cmds == {C("step", "", n) : n \in 0..2} \cup {C("flush", "", 0), C("list", "", 1)}
        \cup {C(a, n, v) : a \in {"set", "force", "poke"}, n \in {"a", "b"}, v \in Values}
        \cup {C("set", "z", 0), C("force", "z", 0), C("release", "z", 0)}
        \cup {C(a, n, 0) : a \in {"release", "print"}, n \in {"a", "b"}}

VARIABLES log, st, dev, ops, bad
vars == <<log, st, dev, ops, bad>>
\* dev: the device; ops: the operations of the command that are still to be done
MCInit == /\ log = <<>> /\ st = DbgInit(Prog) /\ bad = {} /\ ops = <<>>
          /\ dev = [val |-> [k \in S(Prog) |-> 0], forced |-> [k \in S(Prog) |-> 0], mode |-> [k \in S(Prog) |-> "normal"],
                    same |-> [k \in S(Prog) |-> TRUE], sum |-> 0, cyc |-> 0, wave |-> 0]

Op(o, k, v) == [o |-> o, k |-> k, v |-> v]
Code(e) ==
  LET F == Find(Prog, e.n)
      k == CHOOSE x \in F : TRUE
  IN CASE e.a = "step" -> <<Op("step", 0, e.v), Op("wave", 0, 0)>>
       [] e.a = "flush" -> <<Op("wave", 0, 0)>>
       [] e.a = "poke" -> <<Op("poke", k, e.v)>>
       [] e.a = "set" /\ F # {} -> <<Op("write", k, e.v), Op("comb", 0, 0)>>
       [] e.a = "force" /\ F # {} -> <<Op("same", k, 0), Op("force", k, 0), Op("write", k, e.v), Op("comb", 0, 0), Op("same", k, 1)>>
       [] e.a = "release" /\ F # {} ->
            <<Op("same", k, 0), Op("release", k, 0), Op("write", k, -1), Op("comb", 0, 0), Op("normal", k, 0), Op("same", k, 1)>>
       [] OTHER -> <<>>

Write(d, k, v0) ==
  LET v == IF v0 = -1 THEN d.val[k] ELSE v0 IN
  IF d.same[k] /\ v = d.val[k] THEN d
  ELSE CASE d.mode[k] = "force" -> [d EXCEPT !.val[k] = v, !.forced[k] = 1]
         [] d.mode[k] = "release" -> [d EXCEPT !.forced[k] = 0]
         [] OTHER -> IF d.forced[k] = 1 THEN d ELSE [d EXCEPT !.val[k] = v]

RECURSIVE Clock(_, _)
Clock(d, n) ==
  IF n = 0 THEN d
  ELSE LET v == [k \in S(Prog) |-> IF Prog.sigs[k].count = 1 /\ d.forced[k] = 0 THEN (d.val[k] + 1) % 4 ELSE d.val[k]]
       IN Clock([d EXCEPT !.val = v, !.sum = Sum(v), !.cyc = @ + 1], n - 1)

Do(d, o) ==
  CASE o.o = "step" -> Clock(d, o.v)
    [] o.o = "wave" -> [d EXCEPT !.wave = @ + 1]
    [] o.o = "comb" -> [d EXCEPT !.sum = Sum(d.val)]
    [] o.o = "same" -> [d EXCEPT !.same[o.k] = o.v = 1]
    [] o.o = "write" -> Write(d, o.k, o.v)
    [] o.o = "poke" -> IF d.forced[o.k] = 1 THEN d ELSE [d EXCEPT !.val[o.k] = o.v]
    [] OTHER -> [d EXCEPT !.mode[o.k] = o.o]

Begin == /\ ops = <<>> /\ Len(log) < MaxCmds
         /\ \E c \in Cmds :
              \* writing a signal that is forced is left open
              /\ ~(c.a = "set" /\ Find(Prog, c.n) # {} /\ st.forced[K(Prog, c)] = 1)
              /\ log' = Append(log, c)
              /\ ops' = Append(Code(c), Op("end", 0, 0))
         /\ UNCHANGED <<st, dev, bad>>

Work == /\ ops # <<>>
        /\ ops' = Tail(ops)
        /\ IF ops[1].o # "end" THEN dev' = Do(dev, ops[1]) /\ UNCHANGED <<st, bad>>
           ELSE LET c == log[Len(log)]
                    e == [a |-> c.a, n |-> c.n, v |-> c.v, s |-> c.s, ok |-> 1, vals |-> dev.val, forced |-> dev.forced,
                          sum |-> dev.sum, cyc |-> dev.cyc, wave |-> dev.wave, set |-> IF \A k \in S(Prog) : dev.same[k] THEN 1 ELSE 0,
                          stop |-> 0, said |-> 1,
                          out |-> CASE c.a = "list" -> <<<<"a">>>>
                                    [] c.a = "print" -> <<<<2, "hex", dev.val[K(Prog, c)]>>>>
                                    [] OTHER -> <<>>]
                IN /\ bad' = bad \cup Guard(Prog, st, e)
                   /\ st' = Effect(Prog, st, e)
                   /\ (Len(log) = MaxCmds => PrintT(ToJson(log)))
                   /\ UNCHANGED dev
        /\ UNCHANGED log

MCSpec == MCInit /\ [][Begin \/ Work]_vars

Contract == bad = {}
(* a signal that is forced keeps its value whatever the device does        *)
Held == [][\A k \in S(Prog) : dev.forced[k] = 1 /\ dev'.forced[k] = 1 /\ dev'.val[k] # dev.val[k]
              => ops[1].o = "write" /\ log[Len(log)].a = "force"]_vars
=============================================================================
