----------------------------- MODULE BigValues -----------------------------
(* Sequences of billions of values nearly all of which are zero: n is the   *)
(* length and ix, vx are the places (from 0, increasing) and values of      *)
(* those that may not be.  Places, lengths and values are limbs.            *)
EXTENDS Limbs
IsSparse(n, ix, vx) == /\ Len(ix) = Len(vx)
                       /\ \A k \in 1..Len(ix) : IsLimb(ix[k]) /\ LLt(ix[k], n) /\ (k > 1 => LLt(ix[k - 1], ix[k]))
(* binary search: the last place not above q among ix[lo..hi], lo - 1 if none *)
RECURSIVE Find(_, _, _, _)
Find(ix, q, lo, hi) == IF lo > hi THEN hi ELSE LET m == (lo + hi) \div 2 IN IF LLe(ix[m], q) THEN Find(ix, q, m + 1, hi) ELSE Find(ix, q, lo, m - 1)
At(ix, vx, q) == LET k == Find(ix, q, 1, Len(ix)) IN IF k > 0 /\ ix[k] = q THEN vx[k] ELSE L0
=============================================================================
