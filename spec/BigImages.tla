----------------------------- MODULE BigImages -----------------------------
(* The published layout (module Formats) for images of many billions of     *)
(* bytes.  c[k] is, for leaf k of the schema, the value of a plain field or *)
(* the number of elements of a vector (limbs); elements are all zero.       *)
EXTENDS Formats
MulW(a, w) == LET d == LAdd(a, a) IN IF w = 1 THEN a ELSE IF w = 2 THEN d ELSE IF w = 4 THEN LAdd(d, d) ELSE LAdd(LAdd(d, d), LAdd(d, d))
(* bytes of leaf k *)
LeafL(s, a) == IF s.t = "p" THEN OfInt(s.w) ELSE LAdd(OfInt(8), MulW(a, s.w))
(* where each leaf starts in the image, and where the image ends *)
Offsets(ls, c) == FoldLeft(LAMBDA o, k : Append(o, LAdd(o[k], LeafL(ls[k], c[k]))), <<OfInt(8)>>, [k \in 1..Len(ls) |-> k])
(* the bytes that are not zero, in order, as <<offset, byte>>: the flags    *)
(* word g, the plain fields and the counts                                  *)
HeadOf(ls, k, a, off) == LET w == IF ls[k].t = "p" THEN ls[k].w ELSE 8
                       IN  SelectSeq([i \in 1..w |-> <<LAdd(off, OfInt(i - 1)), LByte(a, i - 1)>>], LAMBDA x : x[2] # 0)
NonZero(ls, c, g) ==
    LET o == Offsets(ls, c)
    IN  SelectSeq([i \in 1..8 |-> <<OfInt(i - 1), LByte(g, i - 1)>>], LAMBDA x : x[2] # 0)
        \o FlattenSeq([k \in 1..Len(ls) |-> HeadOf(ls, k, c[k], o[k])])
(* size tree, as in Formats *)
SumL(q) == FoldLeft(LAMBDA x, y : LAdd(x, y), L0, q)
BytesL(s, c, k) == LET ls == Leaves(s) IN SumL([i \in 1..Len(ls) |-> LeafL(ls[i], c[k + i - 1])])
RECURSIVE TreeL(_, _, _, _)
TreeL(s, c, k, d) ==
    IF s.t = "p" THEN <<>>
    ELSE <<<<d, BytesL(s, c, k)>>>> \o
         (IF s.t = "v" THEN <<>>
          ELSE FoldLeft(LAMBDA a, x : [r |-> a.r \o TreeL(x, c, a.k, d + 1), k |-> a.k + NLeaves(x)], [r |-> <<>>, k |-> k], s.f).r)
=============================================================================
