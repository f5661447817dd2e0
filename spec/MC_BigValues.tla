--------------------------- MODULE MC_BigValues ---------------------------
(* Exhaustive check of BigValues against plain sequences.                   *)
EXTENDS BigValues, FiniteSets
CONSTANTS MaxLen
VARIABLES s
Vals == {L0, OfInt(1), <<3, 0, 7>>}
Init == s = <<>>
Next == Len(s) < MaxLen /\ \E v \in Vals : s' = Append(s, v)
Spec == Init /\ [][Next]_s
Asc(S) == [k \in 1..Cardinality(S) |-> CHOOSE x \in S : Cardinality({y \in S : y < x}) = k - 1]
Agrees ==
    LET nz == {i \in 1..Len(s) : s[i] # L0}
    IN \A S \in {X \in SUBSET (1..Len(s)) : nz \subseteq X} :
        LET a == Asc(S)
            ix == [k \in 1..Len(a) |-> OfInt(a[k] - 1)]
            vx == [k \in 1..Len(a) |-> s[a[k]]]
        IN  /\ IsSparse(OfInt(Len(s)), ix, vx)
            /\ \A i \in 1..Len(s) : At(ix, vx, OfInt(i - 1)) = s[i]
            /\ Len(s) > 0 => ~IsSparse(OfInt(0), Append(ix, OfInt(Len(s))), Append(vx, L0))
=============================================================================
