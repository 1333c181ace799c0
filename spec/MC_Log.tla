------------------------------- MODULE MC_Log -------------------------------
(***************************************************************************)
(* The logger as it is built - a level and a list of handlers, each with   *)
(* a level of its own - against the specification, for every sequence of   *)
(* MaxLen operations.  Each is printed, to be run on the code.             *)
(***************************************************************************)
EXTENDS Log, TLC, Json

CONSTANTS MaxLen, Levels

P == [files |-> 1]
E0 == [a |-> "", lvl |-> 0, con |-> 0, file |-> 0, fmt |-> 1, id |-> "", msg |-> "", tb |-> 0]
Ops == {[E0 EXCEPT !.a = "Setup", !.lvl = l, !.con = c, !.file = f, !.fmt = 1 + f] :
            l \in {10, 30}, c \in 0..1, f \in 0..1}
       \cup {[E0 EXCEPT !.a = "Log", !.lvl = l, !.id = i, !.msg = "m", !.tb = t] : l \in Levels, i \in {"", "x"}, t \in {0, 1}}
       \cup {[E0 EXCEPT !.a = "Summary"]}

VARIABLES st, hs, lvl, stats, shown, hist
vars == <<st, hs, lvl, stats, shown, hist>>

Handlers(l, con, f) == {[k |-> "stats", lvl |-> 0]}
                       \cup (IF con = 1 THEN {[k |-> "screen", lvl |-> l]} ELSE {})
                       \cup (IF f > 0 THEN {[k |-> "file", lvl |-> l]} ELSE {})

MCInit == st = LogInit(P) /\ hs = Handlers(30, 1, 0) /\ lvl = 30 /\ stats = 0 /\ shown = 0 /\ hist = <<>>

Handled(l) == {h \in hs : l >= lvl /\ l >= h.lvl}

Next == /\ Len(hist) < MaxLen
        /\ \E o \in Ops :
          /\ hist' = Append(hist, o)
          /\ st' = Op(P, st, o)
          /\ IF o.a = "Setup"
             THEN /\ hs' = Handlers(o.lvl, o.con, o.file) /\ lvl' = o.lvl
                  /\ UNCHANGED <<stats, shown>>
             ELSE LET H == Handled(IF o.a = "Summary" THEN 20 ELSE o.lvl)
                  IN /\ stats' = stats + Cardinality({h \in H : h.k = "stats"})
                     /\ shown' = shown + Cardinality({h \in H : h.k = "screen"})
                     /\ UNCHANGED <<hs, lvl>>
          /\ Len(hist') = MaxLen => PrintT(ToJson([ops |-> hist']))

MCSpec == MCInit /\ [][Next]_vars

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s).c + Sum(Tail(s))
Counted == stats = Sum(st.sev) /\ Sum(st.ids) <= Sum(st.sev)
DisplayedAreCounted == shown <= stats
Agree == [][(st'.out # "") <=> (shown' > shown)]_vars
=============================================================================
