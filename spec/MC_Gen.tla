------------------------------- MODULE MC_Gen -------------------------------
\* The class structure that the tree generator makes - one class for every set
\* of nodes below a name, names that are a signal and a group at once taken
\* apart - bound by its prefixes, against the given names, for every tree.
EXTENDS Gen, TLC, Json

CONSTANTS Names, Depth

RECURSIVE T(_)
T(d) == IF d = 0 THEN {[leaf |-> 1, kids |-> <<>>]}
        ELSE {x \in {[leaf |-> l, kids |-> f] : l \in {0, 1}, f \in UNION {[S -> T(d - 1)] : S \in SUBSET Names}} :
                x.leaf = 1 \/ DOMAIN x.kids # {}}

VARIABLES root, phase
vars == <<root, phase>>

\* the names as given
RECURSIVE NamesOf(_)
NamesOf(kids) == UNION {LET x == kids[n] IN
     (IF x.leaf = 1 THEN {n} ELSE {}) \cup {n \o "_" \o y : y \in NamesOf(x.kids)} : n \in DOMAIN kids}
RECURSIVE Count(_)
Count(kids) == LET RECURSIVE Sum(_)
                   Sum(S) == IF S = {} THEN 0
                             ELSE LET n == CHOOSE m \in S : TRUE
                                  IN kids[n].leaf + Count(kids[n].kids) + Sum(S \ {n})
               IN Sum(DOMAIN kids)

\* the generated class: its own signals and its sub-bundles
Nm(n, top) == IF top THEN n ELSE "_" \o n
RECURSIVE Below(_)
Below(kids) == UNION {LET x == kids[n] IN
     (IF x.leaf = 1 THEN {"_" \o n} ELSE {}) \cup {"_" \o n \o y : y \in Below(x.kids)} : n \in DOMAIN kids}
\* the groups that are taken apart: those that are a signal too, and those
\* whose name a signal taken from another such group has
Flat(kids, top, S) == {Nm(n, top) : n \in {m \in DOMAIN kids : kids[m].leaf = 1}}
                      \cup UNION {{Nm(n, top) \o y : y \in Below(kids[n].kids)} : n \in S}
RECURSIVE Apart(_, _, _)
Apart(kids, top, S) == LET C == {n \in DOMAIN kids : n \notin S /\ DOMAIN kids[n].kids # {} /\ Nm(n, top) \in Flat(kids, top, S)}
                       IN IF C = {} THEN S ELSE Apart(kids, top, S \cup C)
Boths(kids, top) == Apart(kids, top, {n \in DOMAIN kids : kids[n].leaf = 1})
Own(kids, top) == Flat(kids, top, Boths(kids, top))
Subs(kids, top) == {n \in DOMAIN kids : DOMAIN kids[n].kids # {}} \ Boths(kids, top)

\* signals of the class by the prefixes on the way and their own name
RECURSIVE Lv(_, _)
Lv(kids, top) == {<<<<>>, y>> : y \in Own(kids, top)}
                 \cup UNION {{<<<<Nm(n, top)>> \o x[1], x[2]>> : x \in Lv(kids[n].kids, FALSE)} : n \in Subs(kids, top)}
RECURSIVE Strip(_, _)
Strip(ps, s) == IF ps = <<>> \/ s = NoName THEN s
                ELSE Strip(Tail(ps), IF Starts(s, ps[1]) THEN Drop(s, Len(ps[1])) ELSE NoName)
Takes(x, q) == Strip(x[1], q) = x[2]

Init == /\ root \in {x \in T(Depth) : x.leaf = 0 /\ Cardinality(NamesOf(x.kids)) = Count(x.kids)}
        /\ phase = "go"
Next == /\ phase = "go" /\ phase' = "done" /\ PrintT(ToJson(root)) /\ UNCHANGED root
Spec == Init /\ [][Next]_vars

\* every name reaches exactly one signal and every signal one name
Exact == LET L == Lv(root.kids, TRUE)
             N == NamesOf(root.kids)
         IN phase = "done" =>
              /\ \A q \in N : Cardinality({x \in L : Takes(x, q)}) = 1
              /\ \A x \in L : Cardinality({q \in N : Takes(x, q)}) = 1
\* no attribute of a class has two meanings
RECURSIVE Apt(_, _)
Apt(kids, top) == /\ {Nm(n, top) : n \in Subs(kids, top)} \cap Own(kids, top) = {}
                  /\ \A n \in DOMAIN kids : Apt(kids[n].kids, FALSE)
Attributes == phase = "done" => Apt(root.kids, TRUE)
=============================================================================
