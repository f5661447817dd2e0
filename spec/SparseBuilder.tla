--------------------------- MODULE SparseBuilder ---------------------------
(* The builder's operations (module Builder) on vectors of billions of bits *)
(* in which one bit value v is rare: s.n is the length (a limb), s.p the    *)
(* set of the positions that hold v.  A word is given by its bits.          *)
EXTENDS Limbs, Words, FiniteSets
SNew(n, b, v) == [n |-> n, v |-> v, p |-> {}]           \* needs b # v or n = 0
Held(s, at, w) == {LAdd(at, OfInt(j - 1)) : j \in {k \in 1..Len(w) : w[k] = s.v}}
Lost(s, at, w) == {LAdd(at, OfInt(j - 1)) : j \in {k \in 1..Len(w) : w[k] # s.v}}
SSet(s, at, w) == [s EXCEPT !.p = (@ \ Lost(s, at, w)) \cup Held(s, at, w)]
SAppend(s, w)  == [s EXCEPT !.n = LAdd(@, OfInt(Len(w))), !.p = @ \cup Held(s, s.n, w)]
SExtend(s, k)  == [s EXCEPT !.n = LAdd(@, k)]           \* by the common value
SCat(s, t)     == [s EXCEPT !.n = LAdd(@, t.n), !.p = @ \cup {LAdd(s.n, x) : x \in t.p}]
SReverse(s)    == [s EXCEPT !.p = {LSub(s.n, LAdd(x, OfInt(1))) : x \in s.p}]
(* the list ps is exactly the rare positions *)
SIs(s, ps)     == /\ \A i \in 1..Len(ps) : ps[i] \in s.p
                  /\ \A i \in 2..Len(ps) : LLt(ps[i - 1], ps[i])
                  /\ Len(ps) = Cardinality(s.p)
=============================================================================
