----------------------------- MODULE SparseBits -----------------------------
(* The meaning of bit vectors (module Bits) restated for vectors of         *)
(* billions of bits in which one bit value is rare: S.n is the length, S.v  *)
(* the rare value, S.p the strictly increasing list of its positions.       *)
(* Lengths and positions are limbs.  Questions about a position q come with *)
(* the number w of rare positions before it, which is checked.              *)
EXTENDS Limbs, Words
Positions(p, n) == \A k \in 1..Len(p) : LLt(p[k], n) /\ (k > 1 => LLt(p[k - 1], p[k]))
IsSparse(S) == S.v \in {0, 1} /\ Positions(S.p, S.n)
(* exactly w elements of p are below q *)
Below(p, q, w) == /\ w >= 0 /\ w <= Len(p)
                  /\ (w > 0 => LLt(p[w], q))
                  /\ (w < Len(p) => LLe(q, p[w + 1]))
Hit(S, q, w) == w < Len(S.p) /\ S.p[w + 1] = q          \* q itself is rare
BitIs(S, q, w, x) == /\ Below(S.p, q, w) /\ LLt(q, S.n)
                     /\ x = IF Hit(S, q, w) THEN S.v ELSE 1 - S.v
(* c, with wc rare positions before it, is the k-th (0-based) position at   *)
(* or after q that holds x; k is a limb                                     *)
KthIs(S, x, q, w, k, c, wc) ==
    /\ Below(S.p, q, w)
    /\ IF x = S.v
       THEN /\ k[1] = 0 /\ k[2] = 0 /\ k[3] < Len(S.p) - w
            /\ c = S.p[w + k[3] + 1]
       ELSE /\ Below(S.p, c, wc) /\ ~Hit(S, c, wc) /\ LLt(c, S.n)
            /\ wc >= w /\ c = LAdd(LAdd(q, k), OfInt(wc - w))
(* c is the last position at or before q that holds x *)
PredIs(S, x, q, w, c, wc) ==
    LET w1 == IF Hit(S, q, w) THEN w + 1 ELSE w IN
    /\ Below(S.p, q, w) /\ LLt(q, S.n)
    /\ IF x = S.v THEN w1 > 0 /\ c = S.p[w1]
       ELSE /\ Below(S.p, c, wc) /\ ~Hit(S, c, wc) /\ wc <= w1
            /\ LAdd(c, OfInt(w1 - wc)) = q
(* the word whose bits are the len bits at q, zero beyond the end *)
FieldIs(S, q, w, len, word) ==
    LET near == {S.p[i] : i \in (w + 1)..(IF w + 64 < Len(S.p) THEN w + 64 ELSE Len(S.p))}
        f(j) == LET x == LAdd(q, OfInt(j)) IN
                IF j >= len \/ ~LLt(x, S.n) THEN 0 ELSE IF x \in near THEN S.v ELSE 1 - S.v
    IN  Below(S.p, q, w) /\ word = WordOf(f)
=============================================================================
