----------------------------- MODULE TraceC07 -----------------------------
(* Excess tables, then range-minimum sweeps over the justified excess; h*   *)
(* lines probe sequences of billions of parentheses given by their runs     *)
(* (BpRuns).  A position there is logged as a number and as run and offset. *)
EXTENDS TraceBase, Tables, BpRuns
VARIABLES exc, R
V(i) == exc[i + 1]
Values(ms, es) == Len(es) = Len(ms) /\ \A k \in 1..Len(ms) : es[k] = V(ms[k])
In(i) == i >= 0 /\ i < Len(exc)

JudgeExc(e) == Chk("excess", ExcessTable(e.b, e.oExc))
JudgeLeft(e) ==
    /\ Chk("index", \A k \in 1..Len(e.oM) : In(e.oM[k]))
    /\ Chk("rmq", LeftBest(V, e.x, e.y, e.oM))
    /\ Chk("minimum", Values(e.oM, e.oE))
JudgeRight(e) ==
    /\ Chk("index", \A k \in 1..Len(e.oM) : In(e.oM[k]))
    /\ Chk("rmq", RightBest(V, e.y, e.x, e.oM))
    /\ Chk("minimum", Values(e.oM, e.oE))
JudgePairs(e) ==
    /\ Chk("index", Len(e.oM) = Len(e.q) /\ \A k \in 1..Len(e.oM) : In(e.oM[k]))
    /\ Chk("rmq", \A k \in 1..Len(e.q) : BestOf(V, e.q[k][1], e.q[k][2], e.oM[k]))
    /\ Chk("minimum", Values(e.oM, e.oE))

Desc(e) == [k |-> e.k, len |-> e.len, E |-> e.E, st |-> e.st]
JudgeHuge(e) ==
    /\ Chk("runs", IsRuns(Desc(e)))
    /\ Chk("size", e.oN = e.st[Len(e.st)])
Placed(ns, ps) == Len(ns) = Len(ps) /\ \A i \in 1..Len(ns) : IsPos(R, ps[i]) /\ Num(R, ps[i]) = ns[i]
JudgeHExc(e) ==
    /\ Chk("question", Placed(e.q, e.p))
    /\ Chk("excess", Len(e.oE) = Len(e.q) /\ \A i \in 1..Len(e.q) : e.oE[i] = Exc(R, e.p[i]))
JudgeHRmq(e) ==
    /\ Chk("question", Placed(e.x, e.xp) /\ Placed(e.y, e.yp) /\ Len(e.x) = Len(e.y)
                        /\ \A i \in 1..Len(e.x) : PLe(e.xp[i], e.yp[i]))
    /\ Chk("rmq", Placed(e.oM, e.oP) /\ Len(e.oM) = Len(e.x) /\ \A i \in 1..Len(e.x) : IsRmq(R, e.xp[i], e.yp[i], e.oP[i]))
    /\ Chk("minimum", Len(e.oE) = Len(e.x) /\ \A i \in 1..Len(e.x) : e.oE[i] = Exc(R, e.oP[i]))

Init == l = 1 /\ exc = <<>> /\ R = <<>>
Next ==
    \/ Neutral /\ exc' = <<>> /\ UNCHANGED R
    \/ More /\ Ev.e = "bp" /\ (JudgeExc(Ev) = TRUE) /\ Adv /\ exc' = Ev.oExc /\ UNCHANGED R
    \/ More /\ Ev.e = "left" /\ (JudgeLeft(Ev) = TRUE) /\ Adv /\ UNCHANGED exc /\ UNCHANGED R
    \/ More /\ Ev.e = "right" /\ (JudgeRight(Ev) = TRUE) /\ Adv /\ UNCHANGED exc /\ UNCHANGED R
    \/ More /\ Ev.e = "pairs" /\ (JudgePairs(Ev) = TRUE) /\ Adv /\ UNCHANGED exc /\ UNCHANGED R
    \/ More /\ Ev.e = "hb" /\ (JudgeHuge(Ev) = TRUE) /\ Adv /\ R' = Desc(Ev) /\ UNCHANGED exc
    \/ More /\ Ev.e = "he" /\ (JudgeHExc(Ev) = TRUE) /\ Adv /\ UNCHANGED <<exc, R>>
    \/ More /\ Ev.e = "hm" /\ (JudgeHRmq(Ev) = TRUE) /\ Adv /\ UNCHANGED <<exc, R>>
=============================================================================
