----------------------------- MODULE MC_TopRuns -----------------------------
(* Exhaustive check that TopRuns says of a sequence given by its runs what  *)
(* module TopK says of the sequence itself.                                 *)
EXTENDS TopRuns, FiniteSets
CONSTANTS K, M, V
VARIABLE rs
TK == INSTANCE TopK
RunSet == {-1, 0, 1} \X (1..M) \X (0..V)
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE [i \in 1..s[1][2] |-> s[1][3] + s[1][1] * (i - 1)] \o Flat(Tail(s))
RECURSIVE SumN(_, _)
SumN(s, n) == IF n = 0 THEN 0 ELSE SumN(s, n - 1) + s[n][2]
Init == rs = <<>>
Next == Len(rs) < K /\ \E r \in RunSet : rs' = Append(rs, r)
Spec == Init /\ [][Next]_rs
Desc == [k |-> [s \in 1..Len(rs) |-> rs[s][1]], len |-> [s \in 1..Len(rs) |-> rs[s][2]],
         v |-> [s \in 1..Len(rs) |-> rs[s][3]], st |-> [s \in 1..(Len(rs) + 1) |-> OfInt(SumN(rs, s - 1))]]
Agrees ==
    LET R == Desc
        f == Flat(rs)
        g == [i \in 1..Len(f) |-> 100 - f[i]]     \* the values
        P == {p \in (1..Len(rs)) \X (0..(M - 1)) : IsBitPos(R, p)}
        I(p) == Num(R, p)[3]
    IN  \A x, y \in P : PLe(x, y) =>
          /\ \A w \in -V..(2 * V + M) : CountLe(R, x, y, w) = Cardinality({i \in I(x)..I(y) : f[i + 1] <= w})
          /\ \A m \in P : (PLe(x, m) /\ PLe(m, y)) => UpTo(R, x, y, m) = Cardinality({i \in I(x)..I(y) : ~TK!Before(g, I(m), i)})
          /\ IsTopP(R, x, y, <<>>)
          /\ \A p \in P : /\ IsTopP(R, x, y, <<p>>) <=> TK!IsTop(g, I(x), I(y), <<I(p)>>)
                          /\ \A q \in P : IsTopP(R, x, y, <<p, q>>) <=> TK!IsTop(g, I(x), I(y), <<I(p), I(q)>>)
=============================================================================
