----------------------------- MODULE MC_ValRuns -----------------------------
(* Exhaustive check that ValRuns says of a sequence given by its runs what  *)
(* the definition of the leftmost minimum says of the sequence itself.      *)
EXTENDS ValRuns, FiniteSets
CONSTANTS K, M, V
VARIABLE rs
RunSet == {-1, 0, 1} \X (1..M) \X (0..V)
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE [i \in 1..s[1][2] |-> s[1][3] + s[1][1] * (i - 1)] \o Flat(Tail(s))
RECURSIVE SumN(_, _)
SumN(s, n) == IF n = 0 THEN 0 ELSE SumN(s, n - 1) + s[n][2]
Init == rs = <<>>
Next == Len(rs) < K /\ \E r \in RunSet : rs' = Append(rs, r)
Spec == Init /\ [][Next]_rs
Desc == [k |-> [s \in 1..Len(rs) |-> rs[s][1]], len |-> [s \in 1..Len(rs) |-> rs[s][2]],
         v |-> [s \in 1..Len(rs) |-> rs[s][3]], st |-> [s \in 1..(Len(rs) + 1) |-> OfInt(SumN(rs, s - 1))]]
LeftMin(f, x, y, m) == /\ m \in x..y /\ \A i \in x..y : f[i + 1] >= f[m + 1]
                       /\ \A i \in x..(m - 1) : f[i + 1] > f[m + 1]
Agrees ==
    LET R == Desc
        f == Flat(rs)
        P == {p \in (1..Len(rs)) \X (0..(M - 1)) : IsBitPos(R, p)}
        I(p) == Num(R, p)[3]
    IN  /\ IsVals(R)
        /\ {I(p) : p \in P} = 0..(Len(f) - 1) /\ Cardinality(P) = Len(f)
        /\ \A p \in P : Val(R, p) = f[I(p) + 1]
        /\ \A x, y \in P : PLe(x, y) => \A m \in P : IsMin(R, x, y, m) <=> LeftMin(f, I(x), I(y), I(m))
=============================================================================
