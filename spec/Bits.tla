------------------------------- MODULE Bits -------------------------------
(* Abstract meaning of bit vectors and balanced parentheses.                *)
(* A bit vector is a sequence over {0,1}; positions are 0-based, so bit i   *)
(* of b is b[i+1].  Every operator here is a definition, not an algorithm:  *)
(* this module is the oracle for the whole specification.                   *)
EXTENDS Integers, Sequences, FiniteSets

Bit == {0, 1}
BitSeqs(n) == [1..n -> Bit]                  \* all bit vectors of length n
UpTo(n) == UNION {BitSeqs(k) : k \in 0..n}

At(b, i) == b[i + 1]
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

Ones(b)   == {j \in 0..(Len(b) - 1) : At(b, j) = 1}
Zeros(b)  == {j \in 0..(Len(b) - 1) : At(b, j) = 0}
Where(b, v) == IF v = 1 THEN Ones(b) ELSE Zeros(b)

(* rank: how many positions before i hold v;  select: the k-th such position *)
Rank(b, v, i)   == Cardinality({j \in Where(b, v) : j < i})
Select(b, v, k) == CHOOSE j \in Where(b, v) : Rank(b, v, j) = k
Count(b, v)     == Cardinality(Where(b, v))

(* nearest position holding v at or before / at or after i *)
HasPred(b, v, i) == \E j \in Where(b, v) : j <= i
HasSucc(b, v, i) == \E j \in Where(b, v) : j >= i
Pred(b, v, i) == MaxOf({j \in Where(b, v) : j <= i})
Succ(b, v, i) == MinOf({j \in Where(b, v) : j >= i})

(* the field of len bits at pos, zero padded beyond the end *)
PadAt(b, i) == IF i < Len(b) THEN At(b, i) ELSE 0
Field(b, pos, len) == [k \in 1..len |-> PadAt(b, pos + k - 1)]

RECURSIVE ValOf(_)
ValOf(bs) == IF bs = <<>> THEN 0 ELSE bs[1] + 2 * ValOf(Tail(bs))
RECURSIVE BitsOf(_, _)
BitsOf(v, len) == IF len = 0 THEN <<>> ELSE <<v % 2>> \o BitsOf(v \div 2, len - 1)

Rev(b) == [i \in 1..Len(b) |-> b[Len(b) + 1 - i]]
Fill(n, v) == [i \in 1..n |-> v]

---------------------------------------------------------------------------
(* Balanced parentheses: 1 opens, 0 closes. *)
Excess(b, i) == Rank(b, 1, i) - Rank(b, 0, i)
Balanced(b)  == /\ \A i \in 0..Len(b) : Excess(b, i) >= 0
                /\ Excess(b, Len(b)) = 0
(* the closing partner: first position after i where the excess returns     *)
FindClose(b, i) ==
    MinOf({j \in (i + 1)..(Len(b) - 1) : Excess(b, j + 1) = Excess(b, i)})
FindOpen(b, j)  == CHOOSE i \in 0..(j - 1) : At(b, i) = 1 /\ FindClose(b, i) = j
Enclosers(b, i) == {p \in 0..(i - 1) : At(b, p) = 1 /\ FindClose(b, p) > i}
HasEnclose(b, i) == Enclosers(b, i) # {}
Enclose(b, i)    == MaxOf(Enclosers(b, i))
(* leftmost position of smallest excess in [x, y], both inclusive *)
ExcessRmq(b, x, y) ==
    LET m == MinOf({Excess(b, i) : i \in x..y})
    IN  MinOf({i \in x..y : Excess(b, i) = m})
=============================================================================
