----------------------------- MODULE OwnerImpl -----------------------------
(* Mappable vectors as the library implements them: a data pointer, a size  *)
(* and an optional deleter over a heap whose released blocks are reused at  *)
(* once, and mapped regions outside the heap.  Every operation is the       *)
(* library's sequence of steps (clear is swapping with an empty temporary   *)
(* and destroying it; assign clears, builds a temporary, swaps; steal       *)
(* clears, moves the buffer into a new vector, remembers how to delete it;  *)
(* mapping clears, then points into the region).  It must implement Owner:  *)
(* each vector shows what it was last given, blocks are released exactly    *)
(* once, none while shown, none is lost, regions are never released.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Vec, Mv, Reg, Con, Bug
VARIABLES vb,                   \* buffer of each source vector: 0 or a block
          m,                    \* each mappable vector: [data, size, del]
          heap,                 \* block -> content, -1: released
          reg, bad              \* content of the regions; something was released that was not held
vars == <<vb, m, heap, reg, bad>>
NBlocks == Cardinality(Vec) + Cardinality(Mv) + 2
Blocks == 1..NBlocks
NULL == [data |-> 0, size |-> 0, del |-> 0]  \* data: 0, a block, or -r for region r
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
FreshB(h) == MinOf({b \in Blocks : h[b] = -1})
(* machine state threaded through the steps of one operation *)
St == [vb |-> vb, m |-> m, heap |-> heap, bad |-> bad]
Put(s) == vb' = s.vb /\ m' = s.m /\ heap' = s.heap /\ bad' = s.bad /\ reg' = reg
Release(s, d) == IF d = 0 THEN s
                 ELSE IF d < 0 THEN [s EXCEPT !.bad = TRUE]
                 ELSE IF s.heap[d] = -1 THEN [s EXCEPT !.bad = TRUE]
                 ELSE [s EXCEPT !.heap[d] = -1]
New(s, c) == [s EXCEPT !.heap[FreshB(s.heap)] = c]
(* swap of the fields of two vectors: <<first after, second after>> *)
Swapped(x, y) == IF Bug = "swap_deleter" THEN <<[y EXCEPT !.del = x.del], [x EXCEPT !.del = y.del]>> ELSE <<y, x>>
(* clear: temporary() swapped in, then destroyed *)
Clr(s, a) == LET p == Swapped(NULL, s.m[a]) IN Release([s EXCEPT !.m[a] = p[2]], p[1].del)
(* assign from content c held by someone else *)
Make(s, a, c) == LET b == FreshB(s.heap)
                     s1 == New(s, c)
                     t == [data |-> b, size |-> c, del |-> b]
                     p == Swapped(t, s1.m[a])
                 IN  Release([s1 EXCEPT !.m[a] = p[2]], p[1].del)   \* the temporary dies
Asg(s, a, c) == Make(Clr(s, a), a, c)
VC(s, i) == IF s.vb[i] = 0 THEN 0 ELSE s.heap[s.vb[i]]
Stl(s, a, i) ==
    LET s0 == IF Bug = "steal_keeps" \/ (Bug = "steal_empty" /\ s.vb[i] = 0) THEN s ELSE Clr(s, a)
        c == VC(s0, i)
        s1 == [s0 EXCEPT !.m[a].size = c]
    IN  IF c = 0 THEN s1
        ELSE [s1 EXCEPT !.m[a].data = s0.vb[i], !.m[a].del = s0.vb[i], !.vb[i] = IF Bug = "steal_shares" THEN @ ELSE 0]
MapTo(s, a, r) ==
    LET s0 == IF Bug = "map_keeps" THEN s ELSE Clr(s, a)
    IN  [s0 EXCEPT !.m[a].size = reg[r], !.m[a].data = -r, !.m[a].del = IF Bug = "map_owns" THEN -r ELSE @]
(* what a vector shows *)
Shown(x) == IF x.size = 0 THEN 0
            ELSE LET c == IF x.data < 0 THEN reg[-x.data] ELSE IF x.data = 0 THEN -1 ELSE heap[x.data]
                 IN  IF c = x.size THEN c ELSE -1

Init == /\ vb = [i \in Vec |-> 0] /\ m = [i \in Mv |-> NULL] /\ heap = [b \in Blocks |-> -1]
        /\ reg \in [Reg -> Con \cup {0}] /\ bad = FALSE
(* source vectors: assignment releases or reuses their own buffer *)
Fill(i, c) == LET s == Release(St, vb[i]) IN
              IF c = 0 THEN Put([s EXCEPT !.vb[i] = 0]) ELSE LET b == FreshB(s.heap) IN Put([New(s, c) EXCEPT !.vb[i] = b])
Next == \/ \E i \in Vec, c \in Con \cup {0} : Fill(i, c)
        \/ \E a \in Mv, i \in Vec : Put(Stl(St, a, i)) \/ Put(Asg(St, a, VC(St, i)))
        \/ \E a, b \in Mv : a # b /\ Shown(m[b]) >= 0 /\ Put(Asg(St, a, Shown(m[b])))
        \/ \E a, b \in Mv : a # b /\ LET p == Swapped(m[a], m[b]) IN Put([St EXCEPT !.m[a] = p[1], !.m[b] = p[2]])
        \/ \E a \in Mv : Put(Clr(St, a)) \/ \E r \in Reg : Put(MapTo(St, a, r))
Spec == Init /\ [][Next]_vars

(* refinement of Owner *)
Kind(x) == IF x.data < 0 THEN "map" ELSE IF x.size > 0 THEN "own" ELSE "none"
AbsVec == [i \in Vec |-> IF vb[i] = 0 THEN 0 ELSE heap[vb[i]]]
AbsMv == [a \in Mv |-> <<Shown(m[a]), Kind(m[a])>>]
OW == INSTANCE Owner WITH vec <- AbsVec, mv <- AbsMv, reg <- reg
Refines == OW!OInit(reg) /\ [][OW!ONext]_<<AbsVec, AbsMv, reg>>
ShownWell == OW!OTypeOK
ReleasedOnce == ~bad
Owners(b) == Cardinality({i \in Vec : vb[i] = b}) + Cardinality({a \in Mv : m[a].del = b})
HeldOnce == \A b \in Blocks : IF heap[b] = -1 THEN Owners(b) = 0 ELSE Owners(b) = 1
(* storage held is what Owner says; blocks for empty contents do not count *)
IsBig(c) == c > 0
HeldExact == Cardinality({b \in Blocks : heap[b] > 0}) = OW!Held(IsBig)
=============================================================================
