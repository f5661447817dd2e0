------------------------------- MODULE TopK -------------------------------
(* Meaning of top-k enumeration over a sequence v (entry i at v[i+1]).      *)
(* Entries are ordered by decreasing value, then increasing index: a strict *)
(* total order on indices.  An enumerator is a range and the set of entries *)
(* of it already delivered, which is always a prefix of that order, so its  *)
(* state is the range and the last index delivered (NONE: nothing yet).     *)
EXTENDS Integers, Sequences, FiniteSets
NONE == -1
(* i comes before j *)
Before(v, i, j) == v[i + 1] > v[j + 1] \/ (v[i + 1] = v[j + 1] /\ i < j)

Off == [on |-> FALSE, a |-> 0, b |-> 0, last |-> NONE, left |-> 0]
On(a, b) == [on |-> TRUE, a |-> a, b |-> b, last |-> NONE, left |-> b - a + 1]
CanNext(s) == s.on /\ s.left > 0
(* i is the entry that next() must deliver in state s *)
IsNext(v, s, i) ==
    /\ i >= s.a /\ i <= s.b
    /\ s.last # NONE => Before(v, s.last, i)
    /\ \A j \in s.a..s.b : (j = i) \/ Before(v, i, j) \/ (s.last # NONE /\ (j = s.last \/ Before(v, j, s.last)))
After(s, i) == [s EXCEPT !.last = i, !.left = @ - 1]

(* idx is the list of the first Len(idx) entries of [a, b] *)
InOrder(v, a, b, idx) ==
    /\ \A k \in 1..Len(idx) : idx[k] >= a /\ idx[k] <= b
    /\ \A k \in 1..(Len(idx) - 1) : Before(v, idx[k], idx[k + 1])
IsTop(v, a, b, idx) ==
    /\ InOrder(v, a, b, idx)
    /\ Len(idx) \in {0, b - a + 1} \/
         Cardinality({j \in a..b : ~ Before(v, idx[Len(idx)], j)}) = Len(idx)
=============================================================================
