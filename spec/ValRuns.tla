------------------------------ MODULE ValRuns ------------------------------
(* Range minima of a sequence of billions of values that is made of runs:   *)
(* element o of run s has preference rank R.v[s] + R.k[s] * o, where k is   *)
(* -1, 0 or 1.  Smaller ranks are preferred, and earlier elements among     *)
(* equals.                                                                  *)
EXTENDS RunPos
IsVals(R) == IsStarts(R) /\ Len(R.k) = Runs(R) /\ Len(R.v) = Runs(R) /\ \A s \in 1..Runs(R) : R.k[s] \in {-1, 0, 1}
Val(R, p) == R.v[p[1]] + R.k[p[1]] * p[2]
RunMin(R, s, a, b) == IF R.k[s] = -1 THEN R.v[s] - b ELSE R.v[s] + R.k[s] * a
(* every value at the positions p..q, both included, is at least w *)
AllGe(R, p, q, w) ==
    \A s \in p[1]..q[1] :
        RunMin(R, s, IF s = p[1] THEN p[2] ELSE 0, IF s = q[1] THEN q[2] ELSE R.len[s] - 1) >= w
(* m is the leftmost position of smallest value in x..y *)
IsMin(R, x, y, m) ==
    /\ IsBitPos(R, m) /\ PLe(x, m) /\ PLe(m, y)
    /\ AllGe(R, x, y, Val(R, m))
    /\ m = x \/ AllGe(R, x, PrevP(R, m), Val(R, m) + 1)
=============================================================================
