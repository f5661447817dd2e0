------------------------------ MODULE WordSeq ------------------------------
(* Machine words of W bits as sequences over {0,1}, lowest bit first, with  *)
(* the meaning C++ gives to operators on unsigned words.  Shifting by W or  *)
(* more is undefined there, so it is an error here.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT W
ASSUME W >= 1
WZero == [i \in 1..W |-> 0]
WOnes == [i \in 1..W |-> 1]
Shl(w, k) == IF Assert(k >= 0 /\ k < W, "shift out of range") THEN [i \in 1..W |-> IF i > k THEN w[i - k] ELSE 0] ELSE w
Shr(w, k) == IF Assert(k >= 0 /\ k < W, "shift out of range") THEN [i \in 1..W |-> IF i + k <= W THEN w[i + k] ELSE 0] ELSE w
WOr(v, w) == [i \in 1..W |-> IF v[i] = 1 \/ w[i] = 1 THEN 1 ELSE 0]
WAnd(v, w) == [i \in 1..W |-> IF v[i] = 1 /\ w[i] = 1 THEN 1 ELSE 0]
WNot(w) == [i \in 1..W |-> 1 - w[i]]
Low(k) == [i \in 1..W |-> IF i <= k THEN 1 ELSE 0]          \* (1 << k) - 1, for k <= W
OneAt(k) == [i \in 1..W |-> IF i = k + 1 THEN 1 ELSE 0]
WRev(w) == [i \in 1..W |-> w[W + 1 - i]]
Pad(s) == [i \in 1..W |-> IF i <= Len(s) THEN s[i] ELSE 0]  \* a short field as a word
Pop(w) == Cardinality({i \in 1..W : w[i] = 1})
HasOne(w) == \E i \in 1..W : w[i] = 1
Lsb(w) == (CHOOSE i \in 1..W : w[i] = 1 /\ \A j \in 1..(i - 1) : w[j] = 0) - 1
Msb(w) == (CHOOSE i \in 1..W : w[i] = 1 /\ \A j \in (i + 1)..W : w[j] = 0) - 1
SelW(w, k) == (CHOOSE i \in 1..W : w[i] = 1 /\ Cardinality({j \in 1..(i - 1) : w[j] = 1}) = k) - 1
WordsFor(n) == (n + W - 1) \div W
(* the words that store a list of bits *)
Packed(s) == [k \in 1..WordsFor(Len(s)) |-> [i \in 1..W |-> IF (k - 1) * W + i <= Len(s) THEN s[(k - 1) * W + i] ELSE 0]]
Unpacked(ws, n) == [i \in 1..n |-> ws[((i - 1) \div W) + 1][((i - 1) % W) + 1]]
=============================================================================
