-------------------------------- MODULE Rules -------------------------------
\* The rules by which bundles are bound (BindMethod in bundle.py).
\*
\* A rule is [k, pre, post, alts, map]:
\* prefix  pre
\* dict    map: sequence of [key, pin]
\* re0 ^pre(.*)$     re1 pre(.*)      re2 ^(.*)post$    re3 ^pre(.*)post$
\* re4 ^pre(?:A|B)(.*)$   re5 ^pre(A|B)(.*)$   re6 ^pre(?:A(.*)|B(.*))$
\* re7 ^pre(.*)_(.*)$
EXTENDS Integers, Sequences, FiniteSets

NoName == "-"
Starts(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
Ends(s, p) == Len(p) <= Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
Drop(s, n) == IF n >= Len(s) THEN "" ELSE SubSeq(s, n + 1, Len(s))
Chop(s, n) == IF n >= Len(s) THEN "" ELSE SubSeq(s, 1, Len(s) - n)

(* The name a rule gives to a name, NoName if it does not match            *)
RECURSIVE FirstAt(_, _, _)
FirstAt(s, p, k) == IF k + Len(p) - 1 > Len(s) THEN 0
                    ELSE IF SubSeq(s, k, k + Len(p) - 1) = p THEN k ELSE FirstAt(s, p, k + 1)
LastUnder(s) == IF \E k \in 1..Len(s) : SubSeq(s, k, k) = "_"
                THEN CHOOSE k \in 1..Len(s) : SubSeq(s, k, k) = "_" /\ \A j \in (k + 1)..Len(s) : SubSeq(s, j, j) # "_" ELSE 0
RECURSIVE FirstAlt(_, _, _)
FirstAlt(alts, s, j) == IF j > Len(alts) THEN 0 ELSE IF Starts(s, alts[j]) THEN j ELSE FirstAlt(alts, s, j + 1)

Apply(r, s) ==
  CASE r.k \in {"prefix", "re0"} -> IF Starts(s, r.pre) THEN Drop(s, Len(r.pre)) ELSE NoName
    [] r.k = "dict" -> LET M == {j \in DOMAIN r.map : r.map[j].pin = s}
                       IN IF M = {} THEN NoName ELSE r.map[CHOOSE j \in M : \A i \in M : j <= i].key
    [] r.k = "re1" -> LET k == FirstAt(s, r.pre, 1) IN IF k = 0 THEN NoName ELSE Drop(s, k - 1 + Len(r.pre))
    [] r.k = "re2" -> IF Ends(s, r.post) THEN Chop(s, Len(r.post)) ELSE NoName
    [] r.k = "re3" -> IF Starts(s, r.pre) /\ Ends(s, r.post) /\ Len(s) >= Len(r.pre) + Len(r.post)
                      THEN Chop(Drop(s, Len(r.pre)), Len(r.post)) ELSE NoName
    [] r.k = "re7" -> IF ~Starts(s, r.pre) THEN NoName
                      ELSE LET t == Drop(s, Len(r.pre))
                               k == LastUnder(t)
                           IN IF k = 0 THEN NoName ELSE SubSeq(t, 1, k - 1) \o Drop(t, k)
    [] r.k \in {"re4", "re5", "re6"} ->
         IF ~Starts(s, r.pre) THEN NoName
         ELSE LET t == Drop(s, Len(r.pre))
                  j == FirstAlt(r.alts, t, 1)
              IN IF j = 0 THEN NoName
                 ELSE IF r.k = "re5" THEN t ELSE Drop(t, Len(r.alts[j]))

RECURSIVE NameAt(_, _, _)   \* through the rules of a sequence of nodes
NameAt(rules, ns, s) == IF ns = <<>> \/ s = NoName THEN s
                        ELSE NameAt(rules, Tail(ns), Apply(rules[ns[1]], s))
SeqToSet(s) == {s[j] : j \in DOMAIN s}
=============================================================================
