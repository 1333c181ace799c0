-------------------------------- MODULE Cov --------------------------------
(***************************************************************************)
(* Functional coverage (funcov.py): one group, its watch points, bins and  *)
(* sampling switches.                                                      *)
(*                                                                         *)
(* P.targets: number of watched targets, all 0 at first; P.disable: the    *)
(* group's default for once.  A condition is [k, v] with v a sequence of   *)
(* integers; a bin is [name, conds], all of which must hold.               *)
(*                                                                         *)
(* Every event carries what the group reports after it:                    *)
(*   points  sequence of [name, once, hinted, bins: seq of counts, fns]    *)
(*   all, stopped, hinted, count, calln, and the totals                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Holds(c, v) ==
  CASE c.k = "eq" -> v = c.v[1]
    [] c.k = "ne" -> v # c.v[1]
    [] c.k = "gt" -> v > c.v[1]
    [] c.k = "lt" -> v < c.v[1]
    [] c.k = "ge" -> v >= c.v[1]
    [] c.k = "le" -> v <= c.v[1]
    [] c.k = "in" -> \E i \in DOMAIN c.v : c.v[i] = v
    [] c.k = "notin" -> \A i \in DOMAIN c.v : c.v[i] # v
    [] c.k = "range" -> c.v[1] <= v /\ v <= c.v[2]
    [] c.k = "odd" -> v % 2 = 1                     \* a plain function
    [] c.k = "never" -> FALSE

Match(b, v) == \A i \in DOMAIN b.conds : Holds(b.conds[i], v)

CovInit(P) == [tv |-> [t \in 1..P.targets |-> 0],
               pts |-> <<>>,           \* in the order they were added
               stop |-> FALSE,         \* by stop_sample
               full |-> FALSE,         \* all points were covered at the last sample, nothing added since
               once |-> FALSE,         \* ... and all of them are once-only
               count |-> 0, calln |-> 0,
               err |-> FALSE,
               ended |-> FALSE]

Index(st, n) == {i \in DOMAIN st.pts : st.pts[i].name = n}

Covered(p) == \A j \in DOMAIN p.hits : p.hits[j] > 0

Stopped(st) == st.stop \/ (st.full /\ st.once)

Sample(st) ==
  IF Stopped(st) THEN [st EXCEPT !.calln = @ + 1]
  ELSE LET pts == [i \in DOMAIN st.pts |->
                     LET p == st.pts[i] IN
                     [p EXCEPT !.hits = [j \in DOMAIN p.bins |->
                        p.hits[j] + IF Match(p.bins[j], st.tv[p.tgt]) THEN 1 ELSE 0]]]
       IN [st EXCEPT !.calln = @ + 1, !.count = @ + 1, !.pts = pts,
                     !.full = \A i \in DOMAIN pts : Covered(pts[i]),
                     !.once = \A i \in DOMAIN pts : Covered(pts[i]) /\ pts[i].once]

(* Which bins a pattern of mark_function names.  kind "exact" (a name;     *)
(* without a bin of that name it is a regular expression and so a prefix), *)
(* "prefix", "suffix", "mid" (a wildcard or a regular expression for the   *)
(* names that begin with, end in or contain pat), "one" (pat and one more  *)
(* character) or "all".  Several patterns name the bins of each; each has  *)
(* to name at least one.                                                   *)
Starts(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
Ends(s, p) == Len(p) <= Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
Has(s, p) == \E i \in 1..(Len(s) + 1) : Len(p) <= Len(s) - i + 1 /\ SubSeq(s, i, i + Len(p) - 1) = p
Marked(p, m) == {j \in DOMAIN p.bins :
                   LET x == p.bins[j].name IN
                   CASE m.kind = "exact" ->
                       IF \E i \in DOMAIN p.bins : p.bins[i].name = m.pat
                       THEN x = m.pat ELSE Starts(x, m.pat)
                     [] m.kind = "prefix" -> Starts(x, m.pat)
                     [] m.kind = "suffix" -> Ends(x, m.pat)
                     [] m.kind = "mid" -> Has(x, m.pat)
                     [] m.kind = "one" -> Starts(x, m.pat) /\ Len(x) = Len(m.pat) + 1
                     [] m.kind = "all" -> TRUE}

(* The effect of an operation on the group                                 *)
Op(P, st0, e) ==
  LET st == [st0 EXCEPT !.err = FALSE]
      bad == [st EXCEPT !.err = TRUE]
      ix == IF e.n = "" THEN {} ELSE Index(st, e.n)
      i == CHOOSE x \in ix : TRUE
  IN
  CASE e.a = "Set" -> [st EXCEPT !.tv[e.t] = e.v]
    [] e.a = "Sample" -> Sample(st)
    [] e.a = "Stop" -> [st EXCEPT !.stop = TRUE]
    [] e.a = "Resume" -> [st EXCEPT !.stop = FALSE, !.once = FALSE]
    [] e.a = "Clear" -> [CovInit(P) EXCEPT !.tv = st.tv]
    [] e.a = "Add" ->
         IF ix # {} THEN bad
         ELSE [st EXCEPT !.full = FALSE,
                 !.pts = Append(@, [name |-> e.n, tgt |-> e.t, bins |-> e.bins,
                                    once |-> IF e.once = 2 THEN P.disable = 1 ELSE e.once = 1,
                                    hits |-> [j \in DOMAIN e.bins |-> 0],
                                    fns |-> [j \in DOMAIN e.bins |-> {}]])]
    [] e.a = "Del" ->
         IF ix = {} THEN bad
         ELSE [st EXCEPT !.pts = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@))]
    [] e.a = "Reset" ->
         IF ix = {} THEN bad
         ELSE [st EXCEPT !.full = FALSE, !.pts[i].hits = [j \in DOMAIN @ |-> 0]]
    [] e.a = "Mark" ->
         IF ix = {} THEN (IF e.once = 1 THEN bad ELSE st)
         ELSE LET M == [k \in DOMAIN e.mark |-> Marked(st.pts[i], e.mark[k])]
              IN IF \E k \in DOMAIN M : M[k] = {} THEN bad
                 ELSE [st EXCEPT !.pts[i].fns = [j \in DOMAIN @ |->
                         IF \E k \in DOMAIN M : j \in M[k]
                         THEN @[j] \cup {e.f[x] : x \in DOMAIN e.f} ELSE @[j]]]
    [] e.a = "End" -> [st EXCEPT !.ended = TRUE]
    [] OTHER -> st

Sum(f) == LET RECURSIVE S(_)
              S(n) == IF n = 0 THEN 0 ELSE f[n] + S(n - 1)
          IN S(Len(f))
BinTotal(st) == Sum([i \in DOMAIN st.pts |-> Len(st.pts[i].bins)])
BinHits(st) == Sum([i \in DOMAIN st.pts |-> Cardinality({j \in DOMAIN st.pts[i].hits : st.pts[i].hits[j] > 0})])
PointHits(st) == Cardinality({i \in DOMAIN st.pts : Covered(st.pts[i])})
AllCovered(st) == \A i \in DOMAIN st.pts : Covered(st.pts[i])

(* What is reported after the operation differs from what it should be     *)
ObsBad(P, s, e) ==
  LET o == e.obs
      same == Len(o.points) = Len(s.pts) /\ \A i \in DOMAIN s.pts :
                 o.points[i].name = s.pts[i].name /\ Len(o.points[i].hits) = Len(s.pts[i].hits)
  IN
  IF ~same THEN {"cov_points"}
  ELSE (IF \E i \in DOMAIN s.pts : o.points[i].hits # s.pts[i].hits THEN {"cov_hits"} ELSE {})
   \cup (IF \E i \in DOMAIN s.pts : o.points[i].hinted # Covered(s.pts[i])
            \/ o.points[i].covered # Covered(s.pts[i]) THEN {"cov_point_covered"} ELSE {})
   \cup (IF \E i \in DOMAIN s.pts : o.points[i].once # s.pts[i].once THEN {"cov_once"} ELSE {})
   \cup (IF \E i \in DOMAIN s.pts : \E j \in DOMAIN s.pts[i].fns :
              {o.points[i].fns[j][k] : k \in DOMAIN o.points[i].fns[j]} # s.pts[i].fns[j]
              \/ Len(o.points[i].fns[j]) # Cardinality(s.pts[i].fns[j]) THEN {"cov_marks"} ELSE {})
   \cup (IF o.all # AllCovered(s) THEN {"cov_all"} ELSE {})
   \cup (IF o.hinted /\ ~AllCovered(s) THEN {"cov_all"} ELSE {})
   \cup (IF e.a = "Sample" /\ ~Stopped(s) /\ o.hinted # AllCovered(s) THEN {"cov_all"} ELSE {})
   \cup (IF o.stopped # Stopped(s) \/ o.stop # s.stop THEN {"cov_stopped"} ELSE {})
   \cup (IF o.count # s.count \/ o.calln # s.calln THEN {"cov_samples"} ELSE {})
   \cup (IF \/ o.bins # BinTotal(s) \/ o.binhits # BinHits(s)
            \/ o.npoints # Len(s.pts) \/ o.pointhits # PointHits(s)
            \/ o.hasonce # (\E i \in DOMAIN s.pts : s.pts[i].once)
         THEN {"cov_totals"} ELSE {})

Guard(P, st, e) ==
  IF st.ended THEN {"after_end"}
  ELSE IF e.a = "End" THEN {}
  ELSE IF e.a \notin {"Set", "Sample", "Stop", "Resume", "Clear", "Add", "Del", "Reset", "Mark"} THEN {"hang"}
  ELSE LET s == Op(P, st, e)
       IN (IF (e.err = 1) # s.err THEN {"cov_error"} ELSE {}) \cup ObsBad(P, s, e)

Effect(P, st, e) == IF st.ended THEN st ELSE Op(P, st, e)
=============================================================================
