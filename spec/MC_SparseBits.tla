--------------------------- MODULE MC_SparseBits ---------------------------
(* Exhaustive check that SparseBits says of a vector given by the positions *)
(* of one bit value what Bits says of the vector itself.                    *)
EXTENDS SparseBits, FiniteSets
CONSTANTS N
VARIABLES b, v
B == INSTANCE Bits
Init == b = <<>> /\ v \in {0, 1}
Next == Len(b) < N /\ \E x \in {0, 1} : b' = Append(b, x) /\ UNCHANGED v
Spec == Init /\ [][Next]_<<b, v>>
Agrees ==
    LET n == Len(b)
        m == B!Count(b, v)
        S == [n |-> OfInt(n), v |-> v, p |-> [k \in 1..m |-> OfInt(B!Select(b, v, k - 1))]]
        L(i) == OfInt(i)
        WS == 0..m
        f(q, len) == WordOf(LAMBDA j : IF j < len /\ q + j < n THEN B!At(b, q + j) ELSE 0)
    IN  /\ IsSparse(S)
        /\ \A q \in 0..n, w \in -1..(m + 1) : Below(S.p, L(q), w) <=> w = B!Rank(b, v, q)
        /\ \A q \in 0..(n - 1) : LET w == B!Rank(b, v, q) IN
             /\ \A x \in {0, 1} : BitIs(S, L(q), w, x) <=> B!At(b, q) = x
             /\ \A x \in {0, 1}, c \in 0..(n + 1) :
                  /\ (\E wc \in WS : PredIs(S, x, L(q), w, L(c), wc)) <=> (B!HasPred(b, x, q) /\ B!Pred(b, x, q) = c)
                  /\ \A k \in 0..n :
                       (\E wc \in WS : KthIs(S, x, L(q), w, L(k), L(c), wc))
                         <=> (c < n /\ c >= q /\ B!At(b, c) = x /\ B!Rank(b, x, c) - B!Rank(b, x, q) = k)
             /\ \A len \in 0..(n - q) : FieldIs(S, L(q), w, len, f(q, len)) /\ (len > 0 => ~FieldIs(S, L(q), w, len, f(q, len - 1)) \/ B!At(b, q + len - 1) = 0)
             /\ FieldIs(S, L(q), w, 64, f(q, 64))
        /\ \A i, j \in 0..(n + 2) : i <= j => LSub(L(j), L(i)) = L(j - i) /\ LSub(LAdd(<<1, 0, i>>, L(j)), <<0, 5, j>>) = LSub(<<1, 0, i>>, <<0, 5, 0>>)
=============================================================================
