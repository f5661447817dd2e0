---------------------------- MODULE MC_ListRuns ----------------------------
(* Exhaustive check that ListRuns says of a sequence given by its runs what *)
(* holds of the sequence itself.                                            *)
EXTENDS ListRuns, FiniteSets
CONSTANTS K, M
VARIABLE rs
Max == <<15, B30 - 1, B30 - 2>>
Steps == {L0, OfInt(1), OfInt(B15 - 1), <<0, B15 + 3, B30 - 1>>, <<1, B30 - 5, B15>>}
Firsts == {L0, OfInt(3), <<0, 1, B30 - 1>>, <<13, 7, B30 - 1>>, Max, <<15, B30 - 1, B30 - 1>>}
RunSet == (1..M) \X Firsts \X Steps
RECURSIVE Times(_, _)
Times(o, d) == IF o = 0 THEN L0 ELSE LAdd(Times(o - 1, d), d)
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE [i \in 1..s[1][1] |-> LAdd(s[1][2], Times(i - 1, s[1][3]))] \o Flat(Tail(s))
RECURSIVE Sum(_, _)
Sum(v, n) == IF n = 0 THEN L0 ELSE LAdd(Sum(v, n - 1), v[n])
RECURSIVE SumN(_, _)
SumN(s, n) == IF n = 0 THEN 0 ELSE SumN(s, n - 1) + s[n][1]
Init == rs = <<>>
Next == Len(rs) < K /\ \E r \in RunSet : rs' = Append(rs, r)
Spec == Init /\ [][Next]_rs
Agrees ==
    LET R == [len |-> [s \in 1..Len(rs) |-> rs[s][1]], st |-> [s \in 1..(Len(rs) + 1) |-> OfInt(SumN(rs, s - 1))],
              a |-> [s \in 1..Len(rs) |-> rs[s][2]], d |-> [s \in 1..Len(rs) |-> rs[s][3]]]
        v == Flat(rs)
        m == Len(v)
        P == {p \in (1..(Len(rs) + 1)) \X (0..(M - 1)) : IsPos(R, p)}
        Q == P \ {EndP(R)}
        I(p) == Num(R, p)[3]
        T == [s \in 1..(Len(rs) + 1) |-> Sum(v, SumN(rs, s - 1))]
        small == \A s \in 1..Len(T) : T[s][1] < 16
    IN  /\ {I(p) : p \in P} = 0..m /\ Cardinality(P) = m + 1
        /\ IsSeq(R, Max) <=> \A i \in 1..m : LLe(v[i], Max)
        /\ small => /\ IsSums(R, T)
                    /\ \A s \in 1..Len(T) : ~IsSums(R, [T EXCEPT ![s] = LAdd(@, OfInt(1))])
        /\ \A p \in Q : Value(R, p) = v[I(p) + 1]
        /\ \A p \in Q, k \in 1..3 : LET o == [j \in 1..k |-> IF I(p) + j <= m THEN v[I(p) + j] ELSE L0]
                                        w == [o EXCEPT ![k] = LAdd(@, OfInt(1))]
                                    IN  /\ From(R, p, k, o) <=> I(p) + k <= m
                                        /\ ~From(R, p, k, w)
=============================================================================
