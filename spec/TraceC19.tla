----------------------------- MODULE TraceC19 -----------------------------
(* Histories of asking, as behaviours of Library.  known[c][q] is the       *)
(* answer to question q of content c, learnt the first time it is seen, by  *)
(* whichever thread; from then on no other answer is allowed, wherever and  *)
(* whenever the question is asked (events ask0, mix0: before base).         *)
EXTENDS TraceBase
VARIABLES obj, known
LB == INSTANCE Library WITH Obj <- 1..4, Con <- 1..3
Init == l = 1 /\ LB!LInit /\ known = <<>>
Holds(o) == IF o > 100 THEN o - 100 ELSE obj[o]     \* above 100: a thread's own object
(* the answers of one event: <<content, question>> pairs with answers *)
Keys(e) ==
    CASE e.e = "base" -> [i \in 1..Len(e.oA) |-> <<e.c, i>>]
      [] e.e = "again" -> [i \in 1..Len(e.oA) |-> <<e.c, e.q[i]>>]
      [] e.e \in {"ask", "ask0"} -> [i \in 1..Len(e.oA) |-> <<obj[e.o], e.q[i]>>]
      [] e.e \in {"mix", "mix0"} -> [i \in 1..Len(e.oA) |-> <<Holds(e.o[i]), e.q[i]>>]
Learn(ks, as) ==
    LET new == {i \in 1..Len(ks) : ks[i] \notin DOMAIN known} IN
    IF new = {} THEN known
    ELSE [k \in DOMAIN known \cup {ks[i] : i \in new} |-> IF k \in DOMAIN known THEN known[k] ELSE as[CHOOSE i \in new : ks[i] = k]]
Answers(e) ==
    LET ks == Keys(e) n == Learn(ks, e.oA) IN
    /\ (Chk("one answer per content and question", \A i \in 1..Len(ks) : ks[i][1] # 0 /\ n[ks[i]] = e.oA[i]) = TRUE)
    /\ known' = n
Next ==
    \/ Neutral /\ obj' = [o \in 1..4 |-> 0] /\ known' = <<>>
    \/ /\ More /\ Adv
       /\ LET e == Ev IN
          CASE e.e = "build" -> LB!Give(e.o, e.c) /\ UNCHANGED known
            [] e.e = "swap" -> LB!Exchange(e.o, e.p) /\ UNCHANGED known
            [] e.e = "destroy" -> LB!Drop(e.o) /\ UNCHANGED known
            [] e.e \in {"base", "again", "ask", "ask0", "mix", "mix0"} -> Answers(e) /\ LB!Asked
            [] OTHER -> FALSE
=============================================================================
