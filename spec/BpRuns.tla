------------------------------ MODULE BpRuns ------------------------------
(* The meaning of balanced parentheses (module Bits) restated for sequences *)
(* of billions of parentheses that are given by their runs.                 *)
(*   R.k[s] : kind of run s: 1 opens only, -1 closes only, 0 pairs "()"     *)
(*   R.len[s] : its length (below 2^30; even for kind 0)                    *)
(*   R.E[s], R.st[s] : excess and position (a limb, see Limbs) of its start *)
(* E and st have one more entry, for the end.  Positions are as in RunPos.  *)
(* Bits in a run of kind 0 alternate, opening at even offsets.              *)
EXTENDS RunPos
Delta(R, s) == R.k[s] * R.len[s]
(* the description itself is right *)
IsRuns(R) ==
    /\ IsStarts(R)
    /\ Len(R.k) = Runs(R) /\ Len(R.E) = Runs(R) + 1 /\ R.E[1] = 0
    /\ \A s \in 1..Runs(R) :
         /\ R.k[s] \in {-1, 0, 1} /\ (R.k[s] = 0 => R.len[s] % 2 = 0)
         /\ R.E[s + 1] = R.E[s] + Delta(R, s) /\ R.E[s + 1] >= 0
    /\ R.E[Runs(R) + 1] = 0

Opens(R, p) == R.k[p[1]] = 1 \/ (R.k[p[1]] = 0 /\ p[2] % 2 = 0)
Exc(R, p) == IF p[2] = 0 THEN R.E[p[1]]
             ELSE IF R.k[p[1]] = 0 THEN R.E[p[1]] + (p[2] % 2) ELSE R.E[p[1]] + R.k[p[1]] * p[2]

(* smallest excess at the offsets a..b of run s *)
RunMin(R, s, a, b) ==
    IF R.k[s] = 1 THEN R.E[s] + a
    ELSE IF R.k[s] = -1 THEN R.E[s] - b
    ELSE IF a % 2 = 0 \/ b > a THEN R.E[s] ELSE R.E[s] + 1
(* every excess at the positions p..q, both included, is at least v *)
AllGe(R, p, q, v) ==
    \A s \in p[1]..q[1] :
        IF s > Runs(R) THEN R.E[s] >= v
        ELSE RunMin(R, s, IF s = p[1] THEN p[2] ELSE 0, IF s = q[1] THEN q[2] ELSE R.len[s] - 1) >= v

(* j closes the parenthesis opened at i *)
Matches(R, i, j) ==
    /\ IsBitPos(R, i) /\ IsBitPos(R, j) /\ PLt(i, j)
    /\ Opens(R, i) /\ ~Opens(R, j)
    /\ Exc(R, NextP(R, j)) = Exc(R, i)
    /\ AllGe(R, NextP(R, i), j, Exc(R, i) + 1)
(* p is the nearest pair around the parenthesis opened at i *)
Encloses(R, p, i) ==
    /\ IsBitPos(R, i) /\ IsBitPos(R, p) /\ PLt(p, i)
    /\ Opens(R, i) /\ Opens(R, p)
    /\ Exc(R, p) = Exc(R, i) - 1
    /\ AllGe(R, NextP(R, p), i, Exc(R, i))
(* m is the leftmost position of smallest excess in x..y *)
IsRmq(R, x, y, m) ==
    /\ IsPos(R, m) /\ PLe(x, m) /\ PLe(m, y)
    /\ AllGe(R, x, y, Exc(R, m))
    /\ m = x \/ AllGe(R, x, PrevP(R, m), Exc(R, m) + 1)
=============================================================================
