----------------------------- MODULE MC_BpRuns -----------------------------
(* Exhaustive check that BpRuns says of a sequence given by its runs what   *)
(* Bits says of the sequence itself: every list of at most K runs of length *)
(* at most M that is balanced, every pair and triple of positions.          *)
EXTENDS BpRuns, Bits
CONSTANTS K, M
VARIABLE rs
vars == <<rs>>
RunSet == {<<k, n>> \in {-1, 0, 1} \X (1..M) : k = 0 => n % 2 = 0}
RunBits(r) == [i \in 1..r[2] |-> IF r[1] = 1 THEN 1 ELSE IF r[1] = -1 THEN 0 ELSE i % 2]
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE RunBits(s[1]) \o Flat(Tail(s))
RECURSIVE SumD(_, _)
SumD(s, n) == IF n = 0 THEN 0 ELSE SumD(s, n - 1) + s[n][1] * s[n][2]
RECURSIVE SumN(_, _)
SumN(s, n) == IF n = 0 THEN 0 ELSE SumN(s, n - 1) + s[n][2]

Init == rs = <<>>
Next == /\ Len(rs) < K
        /\ \E r \in RunSet : rs' = Append(rs, r) /\ SumD(rs', Len(rs')) >= 0
Spec == Init /\ [][Next]_vars

Desc == [k |-> [s \in 1..Len(rs) |-> rs[s][1]], len |-> [s \in 1..Len(rs) |-> rs[s][2]],
         E |-> [s \in 1..(Len(rs) + 1) |-> SumD(rs, s - 1)],
         st |-> [s \in 1..(Len(rs) + 1) |-> OfInt(SumN(rs, s - 1))]]
Agrees ==
    (rs # <<>> /\ SumD(rs, Len(rs)) = 0) =>
    LET R == Desc
        b == Flat(rs)
        n == Len(b)
        P == {p \in (1..(Len(rs) + 1)) \X (0..(M - 1)) : IsPos(R, p)}
        I(p) == Num(R, p)[3]
        B == {p \in P : IsBitPos(R, p)}
    IN  /\ Balanced(b)
        /\ IsRuns(R)
        /\ {I(p) : p \in P} = 0..n /\ Cardinality(P) = n + 1
        /\ \A p \in P : Exc(R, p) = Excess(b, I(p))
        /\ \A p, q \in P : PLe(p, q) <=> I(p) <= I(q)
        /\ \A p \in B : /\ Opens(R, p) <=> At(b, I(p)) = 1
                        /\ I(NextP(R, p)) = I(p) + 1
        /\ \A i, j \in B : /\ Matches(R, i, j) <=> (At(b, I(i)) = 1 /\ FindClose(b, I(i)) = I(j))
                           /\ Encloses(R, j, i) <=> (At(b, I(i)) = 1 /\ HasEnclose(b, I(i)) /\ Enclose(b, I(i)) = I(j))
        /\ \A x, y \in P : PLe(x, y) =>
             /\ \A v \in 0..(n \div 2) : AllGe(R, x, y, v) <=> \A k \in I(x)..I(y) : Excess(b, k) >= v
             /\ \A m \in P : IsRmq(R, x, y, m) <=> ExcessRmq(b, I(x), I(y)) = I(m)
=============================================================================
