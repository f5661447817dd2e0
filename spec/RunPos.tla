------------------------------ MODULE RunPos ------------------------------
(* Positions in a sequence of billions of elements that is made of runs.    *)
(*   R.len[s] : length of run s, below 2^30                                 *)
(*   R.st[s]  : where it starts, a limb (see Limbs); one more for the end   *)
(* A position is a pair <<s, o>>: offset o in run s; the end is             *)
(* <<Runs(R)+1, 0>>.                                                        *)
EXTENDS Limbs
Runs(R) == Len(R.len)
IsStarts(R) ==
    /\ Len(R.st) = Runs(R) + 1 /\ R.st[1] = L0
    /\ \A s \in 1..Runs(R) : /\ R.len[s] \in 1..(B30 - 1)
                             /\ R.st[s + 1] = LAdd(R.st[s], OfInt(R.len[s]))
IsPos(R, p) == \/ p[1] \in 1..Runs(R) /\ p[2] \in 0..(R.len[p[1]] - 1)
               \/ p = <<Runs(R) + 1, 0>>
IsBitPos(R, p) == IsPos(R, p) /\ p[1] <= Runs(R)
Num(R, p) == LAdd(R.st[p[1]], OfInt(p[2]))               \* the position as a number
PLe(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] <= q[2])
PLt(p, q) == PLe(p, q) /\ p # q
NextP(R, p) == IF p[2] + 1 < R.len[p[1]] THEN <<p[1], p[2] + 1>> ELSE <<p[1] + 1, 0>>
PrevP(R, p) == IF p[2] > 0 THEN <<p[1], p[2] - 1>> ELSE <<p[1] - 1, R.len[p[1] - 1] - 1>>
=============================================================================
