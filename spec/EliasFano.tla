----------------------------- MODULE EliasFano -----------------------------
(* Meaning of an Elias-Fano structure: a non-decreasing list v of values    *)
(* (64-bit, as limbs) below the universe n.                                 *)
EXTENDS Limbs
IsMonotone(n, v) ==
    \A k \in 1..Len(v) : LLt(v[k], n) /\ (k > 1 => LLe(v[k - 1], v[k]))
(* r is the number of values below x *)
IsRank(v, x, r) ==
    /\ r >= 0 /\ r <= Len(v)
    /\ r > 0 => LLt(v[r], x)
    /\ r < Len(v) => LLe(x, v[r + 1])
(* r is the number of values at most x *)
IsRankLe(v, x, r) ==
    /\ r >= 0 /\ r <= Len(v)
    /\ r > 0 => LLe(v[r], x)
    /\ r < Len(v) => LLt(x, v[r + 1])
(* r as justified by IsRank *)
Member(v, x, r) == r < Len(v) /\ v[r + 1] = x
DeltaOk(v, k, d) == IF k = 1 THEN d = v[1] ELSE LAdd(v[k - 1], d) = v[k]
=============================================================================
