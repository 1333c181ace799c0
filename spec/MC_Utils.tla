------------------------------ MODULE MC_Utils ------------------------------
(***************************************************************************)
(* The helpers as they are built (bits of a tree, a counter, a shift) run  *)
(* against their definitions, for every history up to the bounds.          *)
(***************************************************************************)
EXTENDS Utils, TLC, Json

CONSTANTS MaxWays, MaxLen, MaxTaken

VARIABLES kind, ways, bits, cnt, init, hist
vars == <<kind, ways, bits, cnt, init, hist>>

(* -------- the tree of bits: bits[i][pos]                                 *)
L(w) == Layers(w)
ZeroBits(w) == [i \in 0..(L(w) - 1) |-> [p \in 0..(Pow2(i) - 1) |-> 0]]

RECURSIVE Upd(_, _, _, _, _)
Upd(b, w, way, i, pos) ==
  IF i = L(w) THEN b
  ELSE LET bit == (way \div Pow2(L(w) - i - 1)) % 2
           b2 == [b EXCEPT ![i][pos] = IF bit = 1 THEN 0 ELSE 1]
       IN Upd(b2, w, way, i + 1, pos * 2 + bit)

RECURSIVE Sel(_, _, _, _)
Sel(b, w, i, pos) ==
  IF i = L(w) THEN pos
  ELSE LET right == (pos * 2 + 1) * Pow2(L(w) - i - 1)
       IN Sel(b, w, i + 1, pos * 2 + IF b[i][pos] = 1 /\ right < w THEN 1 ELSE 0)

LastOf == [w \in 1..ways |->
             LET S == {k \in DOMAIN hist : hist[k] = w - 1}
             IN IF S = {} THEN 0 ELSE CHOOSE k \in S : \A j \in S : j <= k]

MCInit == \/ /\ kind = "plru" /\ ways \in 1..MaxWays /\ bits = ZeroBits(ways)
             /\ cnt = 0 /\ init = 0 /\ hist = <<>>
          \/ /\ kind = "two" /\ ways = 1 /\ bits = <<>>
             /\ init \in 0..3 /\ cnt = init /\ hist = <<>>

Use == /\ kind = "plru" /\ Len(hist) < MaxLen
       /\ \E v \in 0..(ways - 1) :
            /\ bits' = Upd(bits, ways, v, 0, 0)
            /\ hist' = Append(hist, v)
       /\ UNCHANGED <<kind, ways, cnt, init>>

Taken == /\ kind = "two" /\ Len(hist) < MaxTaken
         /\ \E v \in 0..1 :
              /\ hist' = Append(hist, v)
              /\ cnt' = IF v = 1 THEN (IF cnt < 3 THEN cnt + 1 ELSE cnt) ELSE (IF cnt > 0 THEN cnt - 1 ELSE cnt)
         /\ UNCHANGED <<kind, ways, bits, init>>

Emit == /\ IF kind = "plru" THEN Len(hist) = MaxLen ELSE Len(hist) = MaxTaken
        /\ PrintT(ToJson([kind |-> kind, ways |-> ways, init |-> init, hist |-> hist]))
        /\ UNCHANGED vars

MCSpec == MCInit /\ [][Use \/ Taken \/ Emit]_vars

Plru == kind = "plru" =>
  LET v == Sel(bits, ways, 0, 0)
  IN /\ v \in 0..(ways - 1)
     /\ ways > 1 => v # LastUsed(LastOf)
     /\ Pow2(L(ways)) = ways => v = Victim(LastOf, 0, ways)

(* The counter by definition: clamp the largest prefix ... of the history  *)
RECURSIVE Sat(_, _)
Sat(h, x) == IF h = <<>> THEN x
             ELSE Sat(Tail(h), LET y == x + (IF Head(h) = 1 THEN 1 ELSE -1) IN
                               IF y < 0 THEN 0 ELSE IF y > 3 THEN 3 ELSE y)
Two == kind = "two" => (cnt = Sat(hist, init) /\ cnt \in 0..3)

(* The LFSR step is linear and has an inverse (checked on a basis), so no  *)
(* state but zero leads to zero                                            *)
Basis(k) == [i \in 1..64 |-> IF i = k THEN 1 ELSE 0]
Back(s) == [i \in 1..64 |-> IF i = 1 THEN Xor(s[64], Xor(s[1], Xor(s[3], s[4]))) ELSE s[i - 1]]
Sum2(s, t) == [i \in 1..64 |-> Xor(s[i], t[i])]
ASSUME \A k \in 1..64 : Back(LfsrStep(Basis(k))) = Basis(k)
ASSUME \A k, j \in 1..64 : k < j => LfsrStep(Sum2(Basis(k), Basis(j))) = Sum2(LfsrStep(Basis(k)), LfsrStep(Basis(j)))
=============================================================================
