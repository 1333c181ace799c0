------------------------------ MODULE MC_Comp ------------------------------
(***************************************************************************)
(* How a component comes to its main function, as built: a task that looks *)
(* for the clock, giving way to the others while there is none, then waits *)
(* for the clock's event, which the clock sets and clears with each step,  *)
(* against the contract, for every small program and every schedule.  The  *)
(* programs are printed and run on the real code.                          *)
(***************************************************************************)
EXTENDS Comp, TLC, Json

CONSTANTS MaxOps, MaxClk

VARIABLES prog, st, w, phase, bad
vars == <<prog, st, w, phase, bad>>
P == prog

O(k, n) == [k |-> k, n |-> n]
SeqsUpTo(S, n) == UNION {[1..m -> S] : m \in 0..n}
MainOps == {O("clk", n) : n \in 0..MaxClk} \cup {O("nop", 0)}

Mains == SeqsUpTo(MainOps, 1) \cup {<<O("make", 2)>> \o x : x \in SeqsUpTo(MainOps, 1)}
                              \cup {x \o <<O("make", 2)>> : x \in SeqsUpTo(MainOps, 1)}
Min(x, y) == IF x < y THEN x ELSE y
Where == {"pre", "post", "body"}
Programs ==
  { [comps |-> <<m1, m2>>, pre |-> IF wh = "pre" THEN <<1>> ELSE <<>>, post |-> IF wh = "post" THEN <<1>> ELSE <<>>,
     body |-> (IF wh = "body" THEN SubSeq(b, 1, Min(j, Len(b))) \o <<O("make", 1)>> \o SubSeq(b, Min(j, Len(b)) + 1, Len(b)) ELSE b)
              \o (IF \A i \in DOMAIN m1 : m1[i].k # "make" THEN <<O("make", 2)>> ELSE <<>>) \o <<O("clk", z)>>] :
       m1 \in Mains, m2 \in SeqsUpTo(MainOps, 1), wh \in Where, b \in SeqsUpTo(MainOps, MaxOps), j \in 0..MaxOps,
       z \in 0..1 }
  \cup
  { [comps |-> <<m1, m2>>, pre |-> IF wh = "pre" THEN <<1>> ELSE <<>>, post |-> IF wh = "post" THEN <<1>> ELSE <<>>,
     body |-> (IF wh = "body" THEN <<O("make", 1)>> ELSE <<>>)
              \o (IF late THEN <<O("nop", 0), O("start", 0)>> ELSE <<O("start", 0)>>)
              \o (IF \A i \in DOMAIN m1 : m1[i].k # "make" THEN <<O("make", 2)>> ELSE <<>>) \o <<O("clk", z)>>] :
       m1 \in Mains, m2 \in SeqsUpTo(MainOps, 1), wh \in Where, late \in BOOLEAN, z \in 0..2 }

(* w[c]: no, look (for the clock), wait (for its event), go (woken), main, gone *)
MCInit == /\ prog \in Programs
          /\ st = CompInit(prog)
          /\ w = [c \in Comps(prog) |-> "no"]
          /\ phase = "pre"
          /\ bad = {}

Emit(e) == /\ bad' = bad \cup Guard(P, st, e)
           /\ st' = Effect(P, st, e)

Made(c) == w' = [w EXCEPT ![c] = "look"]

Setup ==
  \/ /\ phase = "pre"
     /\ IF P.pre # <<>> /\ w[P.pre[1]] = "no"
        THEN Emit([a |-> "Make", c |-> P.pre[1]]) /\ Made(P.pre[1]) /\ UNCHANGED phase
        ELSE /\ IF \E i \in DOMAIN P.body : P.body[i].k = "start" THEN UNCHANGED <<st, bad>> ELSE Emit([a |-> "Clock"])
             /\ phase' = "post" /\ UNCHANGED w
     /\ UNCHANGED prog
  \/ /\ phase = "post"
     /\ IF P.post # <<>> /\ w[P.post[1]] = "no"
        THEN Emit([a |-> "Make", c |-> P.post[1]]) /\ Made(P.post[1]) /\ UNCHANGED phase
        ELSE UNCHANGED <<st, bad, w>> /\ phase' = "run" /\ PrintT(ToJson(prog))
     /\ UNCHANGED prog

(* the wrapper of a component                                              *)
Look(c) == /\ phase \in {"run", "post"} /\ w[c] = "look"
           /\ w' = [w EXCEPT ![c] = IF st.clock THEN "wait" ELSE "look"]
           /\ UNCHANGED <<prog, st, phase, bad>>
Go(c) == /\ phase = "run" /\ w[c] = "go"
         /\ Emit([a |-> "Main", c |-> c])
         /\ w' = [w EXCEPT ![c] = "main"]
         /\ UNCHANGED <<prog, phase>>

Op(t) == /\ phase = "run" /\ Ready(P, st, t)
         /\ LET o == Cur(P, st, t) IN
            CASE o.k = "ret" -> Emit([a |-> "Fin", t |-> t, canc |-> 0]) /\ UNCHANGED w
              [] o.k = "make" ->
                   \* making it and going on
                   /\ LET s1 == Effect(P, st, [a |-> "Make", c |-> o.n])
                      IN /\ st' = Effect(P, s1, [a |-> "Did", t |-> t])
                         /\ bad' = bad \cup Guard(P, st, [a |-> "Make", c |-> o.n]) \cup Guard(P, s1, [a |-> "Did", t |-> t])
                   /\ Made(o.n)
              [] o.k = "start" ->
                   /\ LET s1 == Effect(P, st, [a |-> "Clock"])
                      IN /\ st' = Effect(P, s1, [a |-> "Did", t |-> t])
                         /\ bad' = bad \cup Guard(P, st, [a |-> "Clock"]) \cup Guard(P, s1, [a |-> "Did", t |-> t])
                   /\ UNCHANGED w
              [] OTHER -> Emit([a |-> "Did", t |-> t]) /\ UNCHANGED w
         /\ UNCHANGED <<prog, phase>>

Runnable == \/ \E t \in {0} \cup Comps(P) : Ready(P, st, t)
            \/ \E c \in Comps(P) : w[c] \in {"look", "go"}

Kill == /\ phase = "run" /\ ~Runnable /\ st.body
        /\ \E c \in Comps(P) : st.run[c] = "on" \/ w[c] = "wait"
        /\ LET c == CHOOSE x \in Comps(P) : st.run[x] = "on" \/ w[x] = "wait" IN
           IF st.run[c] = "on" THEN Emit([a |-> "Fin", t |-> c, canc |-> 1]) /\ w' = [w EXCEPT ![c] = "gone"]
           ELSE w' = [w EXCEPT ![c] = "gone"] /\ UNCHANGED <<st, bad>>
        /\ UNCHANGED <<prog, phase>>

Step == /\ phase = "run" /\ ~Runnable /\ ~st.final
        /\ st.body => \A c \in Comps(P) : st.run[c] # "on" /\ w[c] # "wait"
        /\ Emit([a |-> "Step"])
        /\ w' = [c \in Comps(P) |-> IF w[c] = "wait" THEN "go" ELSE w[c]]
        /\ UNCHANGED <<prog, phase>>

EndRun == /\ phase = "run" /\ st.final
          /\ Emit([a |-> "End", v |-> 0])
          /\ phase' = "done"
          /\ UNCHANGED <<prog, w>>

Next == Setup \/ Step \/ Kill \/ EndRun \/ (\E c \in Comps(P) : Look(c) \/ Go(c)) \/ (\E t \in {0} \cup Comps(P) : Op(t))
Rest == phase = "done" /\ UNCHANGED vars
MCSpec == MCInit /\ [][Next \/ Rest]_vars /\ WF_vars(Next)

Contract == bad = {}
(* whatever was made before the last cycle has begun                       *)
Begun == phase = "done" => \A c \in Comps(P) : st.made[c] >= 0 /\ st.made[c] < st.now - 1 => st.run[c] # "no"
Ends == <>(phase = "done")
=============================================================================
