------------------------------ MODULE TopKImpl -----------------------------
(* Top-k enumerators as the library implements them: a heap of candidate    *)
(* ranges, each with its best entry; taking the best one splits its range   *)
(* around it.  Two enumerators over one list, advanced, restarted, copied,  *)
(* swapped and cleared in any order.  Refinement: an enumerator delivers    *)
(* the entries of its range by decreasing value, increasing index, each     *)
(* once, then reports exhaustion for ever.                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
B == INSTANCE Bits
CONSTANTS Values, MaxLen, Bug
VARIABLES v, q, cur, left, shown, ok
vars == <<v, q, cur, left, shown, ok>>
X == {1, 2}
NoCur == <<-1, -1>>
(* index of the leftmost largest value of a..b *)
Best(a, b) == B!MinOf({i \in a..b : \A j \in a..b : v[j + 1] <= v[i + 1]})
Cand(a, b) == LET m == Best(a, b) IN <<v[m + 1], m, a, b>>
(* the heap's order: value first, then the smaller index *)
Below(s, t) == s[1] < t[1] \/ (s[1] = t[1] /\ (IF Bug = "index_order" THEN s[2] < t[2] ELSE s[2] > t[2]))
Top(Q) == CHOOSE t \in Q : \A s \in Q : s = t \/ Below(s, t)
(* the entries of a range in the promised order *)
Before(i, j) == v[i + 1] > v[j + 1] \/ (v[i + 1] = v[j + 1] /\ i < j)
Ordered(a, b) == LET at(k) == CHOOSE i \in a..b : Cardinality({j \in a..b : Before(j, i)}) = k - 1
                 IN  [k \in 1..(b - a + 1) |-> <<v[at(k) + 1], at(k)>>]
Init == /\ v \in UNION {[1..k -> Values] : k \in 1..MaxLen}
        /\ q = [x \in X |-> {}] /\ cur = [x \in X |-> NoCur] /\ left = [x \in X |-> <<>>] /\ shown = [x \in X |-> NoCur] /\ ok = TRUE
Start(x, a, b) == /\ q' = [q EXCEPT ![x] = (IF Bug = "restart" THEN @ ELSE {}) \cup {Cand(a, b)}]
                  /\ left' = [left EXCEPT ![x] = Ordered(a, b)] /\ ok' = TRUE /\ UNCHANGED <<v, cur, shown>>
Next1(x) ==
    IF q[x] = {} THEN ok' = (left[x] = <<>>) /\ UNCHANGED <<v, q, cur, left, shown>>
    ELSE LET t == Top(q[x]) m == t[2]
             lo == IF m # t[3] THEN {Cand(t[3], m - 1)} ELSE {}
             hi == IF m # t[4] THEN {Cand(m + 1, t[4])} ELSE {}
         IN  /\ q' = [q EXCEPT ![x] = (@ \ {t}) \cup lo \cup hi]
             /\ cur' = [cur EXCEPT ![x] = <<t[1], m>>]
             /\ ok' = (left[x] # <<>> /\ <<t[1], m>> = Head(left[x]))
             /\ left' = [left EXCEPT ![x] = IF @ = <<>> THEN <<>> ELSE Tail(@)]
             /\ shown' = [shown EXCEPT ![x] = IF left[x] = <<>> THEN NoCur ELSE Head(left[x])]
             /\ UNCHANGED v
Flip(f) == [x \in X |-> f[3 - x]]
Swap == q' = Flip(q) /\ left' = Flip(left) /\ shown' = Flip(shown) /\ cur' = (IF Bug = "swap_cur" THEN cur ELSE Flip(cur)) /\ ok' = TRUE /\ UNCHANGED v
Copy(x) == LET y == 3 - x IN q' = [q EXCEPT ![x] = q[y]] /\ left' = [left EXCEPT ![x] = left[y]] /\ shown' = [shown EXCEPT ![x] = shown[y]]
                             /\ cur' = [cur EXCEPT ![x] = cur[y]] /\ ok' = TRUE /\ UNCHANGED v
Clear(x) == q' = [q EXCEPT ![x] = {}] /\ left' = [left EXCEPT ![x] = <<>>] /\ ok' = TRUE /\ UNCHANGED <<v, cur, shown>>
Next == \/ Swap
        \/ \E x \in X : Next1(x) \/ Copy(x) \/ Clear(x) \/ \E a \in 0..(Len(v) - 1) : \E b \in a..(Len(v) - 1) : Start(x, a, b)
Spec == Init /\ [][Next]_vars
OrderExact == ok
ValueShown == cur = shown
(* the heap covers exactly the entries still to come *)
HeapCovers == \A x \in X : UNION {t[3]..t[4] : t \in q[x]} = {e[2] : e \in {left[x][k] : k \in 1..Len(left[x])}}
=============================================================================
