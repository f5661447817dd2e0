------------------------------- MODULE Owner -------------------------------
(* Who holds what.  Source vectors own their content; a mappable vector is  *)
(* empty, owns a content, or shows a mapped region that it does not own.    *)
(* Content 0 is the empty one.                                              *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Vec, Mv, Reg, Con      \* slots of source vectors, of mappable vectors, regions, non-empty contents
VARIABLES vec, mv, reg
(* vec[i]: content; mv[i]: <<content, kind>>; reg[r]: content, fixed        *)
NOTHING == <<0, "none">>
OInit(r) == vec = [i \in Vec |-> 0] /\ mv = [i \in Mv |-> NOTHING] /\ reg = r
OTypeOK == vec \in [Vec -> Con \cup {0}] /\ mv \in [Mv -> (Con \cup {0}) \X {"none", "own", "map"}]
Given(c) == IF c = 0 THEN NOTHING ELSE <<c, "own">>
Fill(a, c)   == vec' = [vec EXCEPT ![a] = c] /\ UNCHANGED <<mv, reg>>
Steal(a, b)  == mv' = [mv EXCEPT ![a] = Given(vec[b])] /\ vec' = [vec EXCEPT ![b] = 0] /\ UNCHANGED reg
Assign(a, b) == mv' = [mv EXCEPT ![a] = Given(vec[b])] /\ UNCHANGED <<vec, reg>>
Copy(a, b)   == mv' = [mv EXCEPT ![a] = Given(mv[b][1])] /\ UNCHANGED <<vec, reg>>
Swap(a, b)   == mv' = [mv EXCEPT ![a] = mv[b], ![b] = mv[a]] /\ UNCHANGED <<vec, reg>>
Clear(a)     == mv' = [mv EXCEPT ![a] = NOTHING] /\ UNCHANGED <<vec, reg>>
MapOver(a, r) == mv' = [mv EXCEPT ![a] = <<reg[r], "map">>] /\ UNCHANGED <<vec, reg>>
(* storage held: one block for every owner of a non-empty content *)
Held(isBig(_)) == Cardinality({i \in Vec : isBig(vec[i])}) + Cardinality({i \in Mv : mv[i][2] = "own" /\ isBig(mv[i][1])})
ONext == \/ \E a \in Vec, c \in Con \cup {0} : Fill(a, c)
         \/ \E a \in Mv, b \in Vec : Steal(a, b) \/ Assign(a, b)
         \/ \E a, b \in Mv : Copy(a, b) \/ Swap(a, b)
         \/ \E a \in Mv : Clear(a) \/ \E r \in Reg : MapOver(a, r)
=============================================================================
