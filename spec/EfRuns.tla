------------------------------ MODULE EfRuns ------------------------------
(* The meaning of an Elias-Fano structure (module EliasFano) restated for   *)
(* lists of billions of values given by their runs: value o of run s is     *)
(* R.a[s] + o * R.d[s] (limbs, see Limbs).  Positions in the list are as in *)
(* RunPos: <<run, offset>>, and also logged as a number.                    *)
EXTENDS RunPos
B15 == 32768
(* o * d for o < 2^30 and o * d < 2^64, in digits of 15 bits *)
LMul(o, d) ==
    LET ol == o % B15
        oh == o \div B15
        g == <<d[3] % B15, d[3] \div B15, d[2] % B15, d[2] \div B15, d[1]>>
        c1 == g[1] * ol
        c2 == g[2] * ol + g[1] * oh + (c1 \div B15)
        c3 == g[3] * ol + g[2] * oh + (c2 \div B15)
        c4 == g[4] * ol + g[3] * oh + (c3 \div B15)
        c5 == g[5] * ol + g[4] * oh + (c4 \div B15)
    IN  <<c5, (c3 % B15) + B15 * (c4 % B15), (c1 % B15) + B15 * (c2 % B15)>>
Value(R, p) == LAdd(R.a[p[1]], LMul(p[2], R.d[p[1]]))
Last(R, s) == Value(R, <<s, R.len[s] - 1>>)
Desc(e) == [len |-> e.len, st |-> e.st, a |-> e.a, d |-> e.d]
(* the list is non-decreasing and below n *)
IsList(R, n) ==
    /\ IsStarts(R) /\ Len(R.a) = Runs(R) /\ Len(R.d) = Runs(R)
    /\ \A s \in 1..Runs(R) : /\ IsLimb(R.a[s]) /\ IsLimb(R.d[s]) /\ LLt(Last(R, s), n)
                             /\ s > 1 => LLe(Last(R, s - 1), R.a[s])
(* no value twice *)
IsStrict(R) == \A s \in 1..Runs(R) : (R.len[s] > 1 => R.d[s] # L0) /\ (s > 1 => LLt(Last(R, s - 1), R.a[s]))
EndP(R) == <<Runs(R) + 1, 0>>
Z0 == <<1, 0>>                                    \* the first position, also of an empty list
(* the number of values below x, and at most x, given as a position *)
RankP(R, x, p) ==
    /\ IsPos(R, p)
    /\ p # Z0 => LLt(Value(R, PrevP(R, p)), x)
    /\ p # EndP(R) => LLe(x, Value(R, p))
RankLeP(R, x, p) ==
    /\ IsPos(R, p)
    /\ p # Z0 => LLe(Value(R, PrevP(R, p)), x)
    /\ p # EndP(R) => LLt(x, Value(R, p))
HasP(R, x, p) == p # EndP(R) /\ Value(R, p) = x    \* p as justified by RankP
DeltaP(R, p, d) == IF p = Z0 THEN d = Value(R, p) ELSE LAdd(Value(R, PrevP(R, p)), d) = Value(R, p)
(* the k values from p on, p + k inside the list *)
RECURSIVE From(_, _, _, _)
From(R, p, k, o) == k = 0 \/ (p # EndP(R) /\ o[Len(o) - k + 1] = Value(R, p) /\ From(R, NextP(R, p), k - 1, o))
=============================================================================
