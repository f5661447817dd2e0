---------------------------- MODULE WordOpsImpl ----------------------------
(* The word primitives as the library computes them (carry-free arithmetic  *)
(* inside a word, multiplication to sum or to broadcast, saturation, de     *)
(* Bruijn hashing) on words of NL lanes of LB bits, for every pair of       *)
(* words.  The library has NL = LB = 8 (and lanes of nine bits for one      *)
(* comparison); the arguments need W <= 2^(LB-1) for the k-th one and       *)
(* W < 2^LB for the sum, which the check also refutes without.              *)
(* CHECK picks the group: "lanes", "sums", "shape" or "tops".               *)
EXTENDS Integers, Sequences, FiniteSets, Bitwise, TLC
CONSTANTS LB, NL, CHECK, Bug
W == LB * NL
M == 2 ^ W
VARIABLES x, y
vars == <<x, y>>
(* word arithmetic *)
NotW(a) == (M - 1) - a
AndW(a, b) == a & b
OrW(a, b) == a | b
XorW(a, b) == a ^^ b
Sub(a, b) == (a - b) % M
Add(a, b) == (a + b) % M
Mul(a, b) == (a * b) % M
ShrW(a, k) == a \div 2 ^ k
ShlW(a, k) == (a * 2 ^ k) % M
(* definitions *)
BitAt(a, j) == (a \div 2 ^ j) % 2
OnesOf(a) == {j \in 0..(W - 1) : BitAt(a, j) = 1}
Lane(a, i) == (a \div 2 ^ (LB * i)) % 2 ^ LB
Signed(v) == IF v < 2 ^ (LB - 1) THEN v ELSE v - 2 ^ LB
B01(c) == IF c THEN 1 ELSE 0
RECURSIVE FromLanes(_, _)
FromLanes(f(_), i) == IF i = NL THEN 0 ELSE f(i) * 2 ^ (LB * i) + FromLanes(f, i + 1)
RECURSIVE FromBits(_, _)
FromBits(f(_), j) == IF j = W THEN 0 ELSE f(j) * 2 ^ j + FromBits(f, j + 1)
MaxOf(S) == CHOOSE a \in S : \A b \in S : b <= a
MinOf(S) == CHOOSE a \in S : \A b \in S : a <= b
Kth(S, k) == CHOOSE a \in S : Cardinality({b \in S : b < a}) = k

(* constants of the code *)
One(i) == 1
Top(i) == 2 ^ (LB - 1)
ones == FromLanes(One, 0)
msbs == FromLanes(Top, 0)

(* lanes *)
Leq == ShrW(AndW(XorW(Sub(OrW(y, msbs), AndW(x, NotW(msbs))), XorW(x, y)), msbs), LB - 1)
Uleq == ShrW(AndW(XorW(OrW(Sub(OrW(y, msbs), AndW(x, NotW(msbs))), XorW(x, y)), IF Bug = "uleq_side" THEN AndW(y, NotW(x)) ELSE AndW(x, NotW(y))), msbs), LB - 1)
Zcompare == ShrW(AndW(IF Bug = "z_top" THEN Sub(OrW(x, msbs), ones) ELSE OrW(x, Sub(OrW(x, msbs), ones)), msbs), LB - 1)
NoOverflow == \A i \in 0..(NL - 1) : LET d == Signed(Lane(y, i)) - Signed(Lane(x, i)) IN d >= -(2 ^ (LB - 1)) /\ d < 2 ^ (LB - 1)
DLeq(i) == B01(Signed(Lane(x, i)) <= Signed(Lane(y, i)))
DUleq(i) == B01(Lane(x, i) <= Lane(y, i))
DNonZero(i) == B01(Lane(x, i) # 0)
LanesExact == CHECK = "lanes" =>
    /\ (NoOverflow \/ Bug = "leq_total") => Leq = FromLanes(DLeq, 0)
    /\ Uleq = FromLanes(DUleq, 0)
    /\ Zcompare = FromLanes(DNonZero, 0)

(* counts and the k-th one; LB = 4: two folding steps (the library folds once more for its eight) *)
Sel2(i) == 10
Sel3(i) == 3
Counts(a) == LET a1 == Sub(a, ShrW(AndW(a, FromLanes(Sel2, 0)), 1))
             IN  Add(AndW(a1, FromLanes(Sel3, 0)), AndW(ShrW(a1, 2), FromLanes(Sel3, 0)))
Total(a) == ShrW(Mul(a, ones), W - LB)
DCount(i) == Cardinality({j \in OnesOf(x) : j \div LB = i})
InLane(b, k) == Kth({j \in 0..(LB - 1) : (b \div 2 ^ j) % 2 = 1}, k)      \* the table (MC_Tables)
SelectW(k) ==
    LET sums == Mul(Counts(x), ones)
        geq == AndW(Sub(OrW(Mul(k, ones), msbs), sums), msbs)
        place == IF Bug = "by_product" THEN AndW(ShrW(Mul(ShrW(geq, LB - 1), ones), W - LB - 2), NotW(3))
                 ELSE Cardinality(OnesOf(geq)) * LB
        rank == k - (IF Bug = "rank_lane" THEN ShrW(sums, place) % 2 ^ LB ELSE ShrW(ShlW(sums, LB), place) % 2 ^ LB)
    IN  IF place >= W \/ rank < 0 \/ rank >= Cardinality({j \in OnesOf(x) : j \div LB = place \div LB}) THEN -1
        ELSE place + InLane(Lane(x, place \div LB), rank)
SumsExact == CHECK = "sums" =>
    /\ Counts(x) = FromLanes(DCount, 0)
    /\ Total(Counts(x)) = Cardinality(OnesOf(x))
    /\ \A k \in 0..(Cardinality(OnesOf(x)) - 1) : SelectW(k) = Kth(OnesOf(x), k)

(* reversals, W = 8 in lanes of 4: two steps within lanes, then the lanes *)
Mask(k) == LET f(j) == B01((j \div k) % 2 = 0) IN FromBits(f, 0)
Swap(a, k) == OrW(AndW(ShrW(a, k), Mask(k)), ShlW(AndW(a, Mask(k)), k))
RevLanes(a) == OrW(ShrW(a, 4), ShlW(a, 4))
RevBits(a) == RevLanes(IF Bug = "rev_step" THEN Swap(a, 1) ELSE Swap(Swap(a, 1), 2))
DRevL(j) == BitAt(x, LB * (NL - 1 - (j \div LB)) + (j % LB))
DRev(j) == BitAt(x, W - 1 - j)
ShapeExact == CHECK = "shape" => RevLanes(x) = FromBits(DRevL, 0) /\ RevBits(x) = FromBits(DRev, 0)

(* highest, lowest, single, same highest; W = 8 *)
DeBruijn == 23                               \* 00010111
Mapping == [h \in 0..7 |-> CHOOSE j \in 0..7 : ShrW(Mul(2 ^ j, DeBruijn), 5) = h]
BitPosition(a) == Mapping[ShrW(Mul(a, DeBruijn), 5)]
Saturate(a) == LET s(v, k) == OrW(v, ShrW(v, k)) IN IF Bug = "sat_short" THEN s(s(a, 1), 2) ELSE s(s(s(a, 1), 2), 4)
MsbOf(a) == LET s == Saturate(a) IN BitPosition(XorW(s, ShrW(s, 1)))
LsbOf(a) == BitPosition(AndW(a, Sub(0, a)))
SameMsb == XorW(x, y) <= AndW(x, y)
TopsExact == CHECK = "tops" =>
    /\ \A j \in 0..(W - 1) : BitPosition(2 ^ j) = j
    /\ x # 0 => MsbOf(x) = MaxOf(OnesOf(x)) /\ LsbOf(x) = MinOf(OnesOf(x))
    /\ SameMsb = (IF x = 0 \/ y = 0 THEN x = y ELSE MaxOf(OnesOf(x)) = MaxOf(OnesOf(y)))

Init == x \in 0..(M - 1) /\ y \in (IF CHECK \in {"lanes", "tops"} THEN 0..(M - 1) ELSE {0})
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
