------------------------------ MODULE MC_Bind ------------------------------
\* The binding algorithm, level by level and pin by pin in any order, against
\* the rules (Bind): a bundle with a signal, a signal list, a sub-bundle and a
\* bundle list, every combination of rules and every set of pins.
EXTENDS Bind, TLC, Json

CONSTANT MaxPins

R(k, pre, post, alts, map, text) == [k |-> k, pre |-> pre, post |-> post, alts |-> alts, map |-> map, text |-> text]
Pre(s) == R("prefix", s, "", <<>>, <<>>, "")
Top == {Pre(""), Pre("x_"),
        R("re0", "x_", "", <<>>, <<>>, "^x_(.*)$"), R("re1", "x_", "", <<>>, <<>>, "x_(.*)"),
        R("re3", "x_", "_o", <<>>, <<>>, "^x_(.*)_o$"), R("re6", "x_", "", <<"s_", "v0_">>, <<>>, "^x_(?:s_(.*)|v0_(.*))$"),
        R("dict", "", "", <<>>, <<[key |-> "a", pin |-> "x_s_a"], [key |-> "s_a", pin |-> "a"], [key |-> "v0_a", pin |-> "x_a"],
                                  [key |-> "l0", pin |-> "s_a"]>>, "")}
SubR == {Pre(""), Pre("s_"), R("re2", "", "_o", <<>>, <<>>, "^(.*)_o$"), R("re5", "", "", <<"a", "s">>, <<>>, "^(a|s)(.*)$"),
         R("dict", "", "", <<>>, <<[key |-> "a", pin |-> "s_a"], [key |-> "b", pin |-> "a"]>>, "")}
Pool == {"a", "x_a", "s_a", "x_s_a", "x_v0_a", "x_l0", "x_s_a_o", "v0_a"}

E(n, i) == [n |-> n, i |-> i]
Lv(p, l, ns) == [path |-> p, loc |-> l, nodes |-> ns]
Ls == <<Lv(<<E("a", -1)>>, "a", <<1>>), Lv(<<E("l", 0)>>, "l0", <<1>>), Lv(<<E("s", -1), E("a", -1)>>, "a", <<1, 2>>),
        Lv(<<E("s", -1), E("b", -1)>>, "b", <<1, 2>>), Lv(<<E("v", 0), E("a", -1)>>, "a", <<1, 3>>)>>

VARIABLES top, sub, pins, node, todo, down, con
vars == <<top, sub, pins, node, todo, down, con>>

Rule(n) == CASE n = 1 -> top [] n = 2 -> sub [] n = 3 -> Pre("v0_")
Own(n) == {k \in 1..5 : Ls[k].nodes[Len(Ls[k].nodes)] = n}

PP == [classes |-> <<[nodes |-> <<[path |-> <<>>, rule |-> top], [path |-> <<E("s", -1)>>, rule |-> sub],
                                  [path |-> <<E("v", 0)>>, rule |-> Pre("v0_")]>>, leaves |-> Ls]>>,
       insts |-> <<1>>, names |-> <<"">>, duts |-> <<[pins |-> <<>>, outs |-> <<>>]>>]

Init == /\ top \in Top /\ sub \in SubR
        /\ pins \in {S \in SUBSET Pool : S # {} /\ Cardinality(S) <= MaxPins}
        /\ node = 1 /\ todo = {[org |-> q, name |-> q] : q \in pins} /\ down = {} /\ con = [k \in 1..5 |-> ""]

Take == /\ todo # {} /\ node <= 3
        /\ \E q \in todo :
             LET n == Apply(Rule(node), q.name)
                 K == {k \in Own(node) : Ls[k].loc = n}
             IN /\ todo' = todo \ {q}
                /\ con' = [k \in 1..5 |-> IF k \in K /\ n # NoName THEN q.org ELSE con[k]]
                /\ down' = IF n = NoName THEN (IF node = 1 THEN down ELSE down \cup {q})
                           ELSE IF K # {} THEN down
                           ELSE IF node = 1 THEN down \cup {[org |-> q.org, name |-> n]} ELSE down \cup {q}
        /\ UNCHANGED <<top, sub, pins, node>>
Go == /\ todo = {} /\ node <= 3
      /\ node' = node + 1 /\ todo' = down /\ down' = {}
      /\ IF node = 3 THEN PrintT(ToJson([top |-> top, sub |-> sub, pins |-> pins])) ELSE TRUE
      /\ UNCHANGED <<top, sub, pins, con>>
Next == Take \/ Go
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

St == [rules |-> <<<<top, sub, Pre("v0_")>>>>]
C(k) == {q \in pins : Eligible(PP, St, 1, k, q)}
Rr(q) == {k \in 1..5 : Eligible(PP, St, 1, k, q)}
Correct == node = 4 =>
  /\ \A k \in 1..5 : con[k] = "" \/ con[k] \in C(k)
  /\ \A k \in 1..5 : con[k] = "" => \A q \in C(k) : Rr(q) # {k}
  /\ \A k, m \in 1..5 : (k # m /\ con[k] # "") => con[k] # con[m]
  \* where the rules leave no choice there is one result, whatever the order
  /\ \A k \in 1..5 : (Cardinality(C(k)) = 1 /\ \A q \in C(k) : Rr(q) = {k}) => con[k] \in C(k)
Ends_ == <>(node = 4)
=============================================================================
