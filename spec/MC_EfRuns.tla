----------------------------- MODULE MC_EfRuns -----------------------------
(* Exhaustive check that EfRuns says of a list of values given by its runs  *)
(* what module EliasFano says of the list itself.                           *)
EXTENDS EfRuns, FiniteSets
CONSTANTS K, M
VARIABLE rs
EF == INSTANCE EliasFano
(* gaps and steps with carries in every digit *)
Steps == {L0, OfInt(1), OfInt(B15 - 1), <<0, B15 + 3, B30 - 1>>, <<1, B30 - 5, B15>>}
Gaps == {L0, OfInt(1), OfInt(3), <<0, 0, B30 - 2>>}
RunSet == (1..M) \X Gaps \X Steps
RECURSIVE Times(_, _)
Times(o, d) == IF o = 0 THEN L0 ELSE LAdd(Times(o - 1, d), d)
(* LMul is multiplication: for small factors by its definition, for large   *)
(* ones because it is additive                                              *)
Factors == {0, 1, 2, 3, B15 - 1, B15, B15 + 1, 65535, 99999999, 536870911, 536870912, B30 - 2, B30 - 1}
Digits == {0, 1, B15 - 1, B15, B15 + 1, 123456789, B30 - B15, B30 - 1}
ASSUME \A t \in 0..3, x, y \in Digits : LET d == <<t, y, x>> IN
    /\ \A o \in 0..4 : LMul(o, d) = Times(o, d)
    /\ \A o, q \in Factors : (o + q < B30 /\ (t = 0 \/ o + q < B15)) => LMul(o + q, d) = LAdd(LMul(o, d), LMul(q, d))
RECURSIVE Starts(_, _)                            \* first value of each run: a gap above the last one
Starts(s, base) ==
    IF s = <<>> THEN <<>>
    ELSE LET x == LAdd(base, s[1][2]) IN <<x>> \o Starts(Tail(s), LAdd(x, Times(s[1][1] - 1, s[1][3])))
RECURSIVE SumN(_, _)
SumN(s, n) == IF n = 0 THEN 0 ELSE SumN(s, n - 1) + s[n][1]
RECURSIVE Flat(_, _)
Flat(s, a) == IF s = <<>> THEN <<>> ELSE [i \in 1..s[1][1] |-> LAdd(a[1], Times(i - 1, s[1][3]))] \o Flat(Tail(s), Tail(a))
Init == rs = <<>>
Next == Len(rs) < K /\ \E r \in RunSet : rs' = Append(rs, r)
Spec == Init /\ [][Next]_rs
Agrees ==
    LET R == [len |-> [s \in 1..Len(rs) |-> rs[s][1]], st |-> [s \in 1..(Len(rs) + 1) |-> OfInt(SumN(rs, s - 1))],
              a |-> Starts(rs, L0), d |-> [s \in 1..Len(rs) |-> rs[s][3]]]
        v == Flat(rs, R.a)
        m == Len(v)
        P == {p \in (1..(Len(rs) + 1)) \X (0..(M - 1)) : IsPos(R, p)}
        Q == P \ {EndP(R)}
        I(p) == Num(R, p)[3]
        X == {L0} \union {v[i] : i \in 1..m} \union {LAdd(v[i], OfInt(1)) : i \in 1..m} \union {LSub(v[i], OfInt(1)) : i \in {j \in 1..m : v[j] # L0}}
        D == {L0} \union X
    IN  /\ {I(p) : p \in P} = 0..m /\ Cardinality(P) = m + 1
        /\ \A n \in X : IsList(R, n) <=> EF!IsMonotone(n, v)
        /\ IsStrict(R) <=> \A i \in 2..m : LLt(v[i - 1], v[i])
        /\ \A p \in Q : Value(R, p) = v[I(p) + 1]
        /\ \A x \in X, p \in P : /\ RankP(R, x, p) <=> EF!IsRank(v, x, I(p))
                                 /\ RankLeP(R, x, p) <=> EF!IsRankLe(v, x, I(p))
                                 /\ HasP(R, x, p) <=> EF!Member(v, x, I(p))
        /\ \A p \in Q, d \in D : DeltaP(R, p, d) <=> EF!DeltaOk(v, I(p) + 1, d)
        /\ \A p \in Q, k \in 1..3 : LET o == [j \in 1..k |-> IF I(p) + j <= m THEN v[I(p) + j] ELSE L0]
                                        w == [o EXCEPT ![k] = LAdd(@, OfInt(1))]
                                    IN  /\ From(R, p, k, o) <=> I(p) + k <= m
                                        /\ ~From(R, p, k, w)
=============================================================================
