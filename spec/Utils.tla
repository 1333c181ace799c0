------------------------------- MODULE Utils -------------------------------
(***************************************************************************)
(* The helpers of toffee.utils: pseudo-LRU, two-bit counter, 64-bit LFSR.  *)
(* P.kind says which; P.ways, P.init, P.seed (bits, lowest first) how it   *)
(* was made.  Every definition is over the history of the helper.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Pow2(n) == 2 ^ n
Layers(w) == CHOOSE k \in 0..16 : Pow2(k) >= w /\ \A j \in 0..16 : Pow2(j) >= w => j >= k

(* ---- pseudo-LRU: last[w + 1] is when way w was used last, 0 if never    *)
(* The victim among the ways of the node at `pos` of layer `i`: the half   *)
(* that was not used last, the lower one if neither was                    *)
MaxUse(last, lo, hi) ==       \* over ways lo..hi-1
  LET S == {last[w + 1] : w \in lo..(hi - 1)} IN CHOOSE m \in S : \A n \in S : n <= m

RECURSIVE Victim(_, _, _)
Victim(last, lo, size) ==
  IF size = 1 THEN lo
  ELSE LET h == size \div 2
           a == MaxUse(last, lo, lo + h)
           b == MaxUse(last, lo + h, lo + size)
       IN IF a > b THEN Victim(last, lo + h, h) ELSE Victim(last, lo, h)

LastUsed(last) ==   \* -1 if none
  LET S == {w \in DOMAIN last : last[w] > 0}
  IN IF S = {} THEN -1 ELSE (CHOOSE w \in S : \A v \in S : last[v] <= last[w]) - 1

(* ---- the LFSR: 64 bits, lowest first                                    *)
Xor(a, b) == (a + b) % 2
Mask64(s) == [i \in 1..64 |-> IF i <= Len(s) THEN s[i] ELSE 0]
LfsrStep(s) == [i \in 1..64 |-> IF i < 64 THEN s[i + 1]
                                ELSE Xor(Xor(s[1], s[2]), Xor(s[4], s[5]))]

UtilsInit(P) == [last |-> IF P.kind = "plru" THEN [w \in 1..P.ways |-> 0] ELSE <<>>,
                 now |-> 0,
                 cnt |-> IF P.kind = "two" THEN P.init ELSE 0,
                 lfsr |-> IF P.kind = "lfsr" THEN Mask64(P.seed) ELSE <<>>,
                 ended |-> FALSE]

(* Events: Use v; Get v; Taken v, Predict v; Step, Rand bits; End          *)
Guard(P, st, e) ==
  IF st.ended THEN {"after_end"}
  ELSE
  CASE e.a = "Get" ->
         IF e.v \notin 0..(P.ways - 1) THEN {"plru_invalid"}
         ELSE (IF P.ways > 1 /\ e.v = LastUsed(st.last) THEN {"plru_last"} ELSE {})
          \cup (IF Pow2(Layers(P.ways)) = P.ways /\ e.v # Victim(st.last, 0, P.ways) THEN {"plru_tree"} ELSE {})
    [] e.a = "Predict" -> IF e.v = (IF st.cnt >= 2 THEN 1 ELSE 0) THEN {} ELSE {"two_predict"}
    [] e.a = "Count" -> IF e.v = st.cnt THEN {} ELSE {"two_count"}
    [] e.a = "Rand" ->
         (IF Len(e.bits) # 64 THEN {"lfsr_width"}
          ELSE (IF e.bits # st.lfsr THEN {"lfsr_sequence"} ELSE {})
           \cup (IF (\A i \in DOMAIN e.bits : e.bits[i] = 0) /\ (\E i \in DOMAIN st.lfsr : st.lfsr[i] = 1)
                 THEN {"lfsr_zero"} ELSE {}))
    [] e.a \in {"Use", "Taken", "Step", "End"} -> {}
    [] OTHER -> {"hang"}

Effect(P, st, e) ==
  IF st.ended THEN st
  ELSE
  CASE e.a = "Use" -> [st EXCEPT !.now = @ + 1, !.last[e.v + 1] = st.now + 1]
    [] e.a = "Taken" -> [st EXCEPT !.cnt = IF e.v = 1 THEN (IF @ < 3 THEN @ + 1 ELSE 3)
                                            ELSE (IF @ > 0 THEN @ - 1 ELSE 0)]
    [] e.a = "Step" -> [st EXCEPT !.lfsr = LfsrStep(@)]
    [] e.a = "End" -> [st EXCEPT !.ended = TRUE]
    [] OTHER -> st
=============================================================================
