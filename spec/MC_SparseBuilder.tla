------------------------- MODULE MC_SparseBuilder -------------------------
(* Every short history of two builders: the sparse state is always the one  *)
(* that the list of bits of module Builder describes.                       *)
EXTENDS SparseBuilder, Builder
CONSTANTS N, W
VARIABLES x, y, sx, sy, v
vars == <<x, y, sx, sy, v>>
Init == v \in Bit /\ x = <<>> /\ y = <<>> /\ sx = SNew(L0, 0, v) /\ sy = SNew(L0, 0, v)
WordsUpTo == UNION {[1..k -> Bit] : k \in 0..W}
Do(op, sop) == x' = op /\ sx' = sop /\ UNCHANGED <<y, sy, v>>
Next ==
    \/ \E n \in 0..N : Do(New(n, 1 - v), SNew(OfInt(n), 1 - v, v))
    \/ \E w \in WordsUpTo : \/ Len(x) + Len(w) <= N /\ Do(AppendField(x, w), SAppend(sx, w))
                            \/ \E p \in 0..Len(x) : SetFieldOk(x, p, Len(w)) /\ Do(SetField(x, p, w), SSet(sx, OfInt(p), w))
    \/ \E k \in 0..2 : Len(x) + k <= N /\ Do(IF v = 1 THEN ZeroExtend(x, k) ELSE OneExtend(x, k), SExtend(sx, OfInt(k)))
    \/ Len(x) + Len(y) <= N /\ Do(AppendAll(x, y), SCat(sx, sy))
    \/ Do(Reversed(x), SReverse(sx))
    \/ x' = y /\ y' = x /\ sx' = sy /\ sy' = sx /\ UNCHANGED v
Spec == Init /\ [][Next]_vars
Same(b, s) == /\ s.n = OfInt(Len(b)) /\ s.v = v
              /\ s.p = {OfInt(j) : j \in Where(b, v)}
              /\ SIs(s, [k \in 1..Count(b, v) |-> OfInt(Select(b, v, k - 1))])
Agrees == Same(x, sx) /\ Same(y, sy)
=============================================================================
