----------------------------- MODULE TraceC08 -----------------------------
(* Range minimum over a sequence.  p[i] is the preference rank of element   *)
(* i-1: smaller is preferred, equal ranks are equivalent under the order    *)
(* handed to the implementation.  h* lines probe sequences of billions of   *)
(* elements given by their runs (ValRuns); an index there is logged as a    *)
(* number and as its run and offset.                                        *)
EXTENDS TraceBase, Tables, ValRuns
VARIABLES p, R
V(i) == p[i + 1]
In(i) == i >= 0 /\ i < Len(p)
InAll(m) == Chk("index", \A k \in 1..Len(m) : In(m[k]))

JudgeAll(e) ==
    LET n == Len(e.p)
        W(i) == e.p[i + 1]
    IN  /\ Chk("size", e.oN = n)
        /\ Chk("table", Len(e.oM) = n)
        /\ \A x \in 0..(n - 1) :
             /\ Chk("index", \A k \in 1..Len(e.oM[x + 1]) : e.oM[x + 1][k] \in 0..(n - 1))
             /\ Chk("rmq", LeftBest(W, x, [k \in 1..(n - x) |-> x + k - 1], e.oM[x + 1]))
JudgePairs(e) ==
    /\ InAll(e.oM)
    /\ Chk("rmq", Len(e.oM) = Len(e.q) /\ \A k \in 1..Len(e.q) : BestOf(V, e.q[k][1], e.q[k][2], e.oM[k]))

Desc(e) == [k |-> e.k, len |-> e.len, v |-> e.v, st |-> e.st]
JudgeHuge(e) ==
    /\ Chk("runs", IsVals(Desc(e)))
    /\ Chk("size", e.oN = e.st[Len(e.st)])
Placed(ns, ps) == Len(ns) = Len(ps) /\ \A i \in 1..Len(ns) : IsBitPos(R, ps[i]) /\ Num(R, ps[i]) = ns[i]
JudgeHRmq(e) ==
    /\ Chk("question", Placed(e.x, e.xp) /\ Placed(e.y, e.yp) /\ Len(e.x) = Len(e.y)
                        /\ \A i \in 1..Len(e.x) : PLe(e.xp[i], e.yp[i]))
    /\ Chk("rmq", Placed(e.oM, e.oP) /\ Len(e.oM) = Len(e.x) /\ \A i \in 1..Len(e.x) : IsMin(R, e.xp[i], e.yp[i], e.oP[i]))

Init == l = 1 /\ p = <<>> /\ R = <<>>
Next ==
    \/ Neutral /\ p' = <<>> /\ UNCHANGED R
    \/ More /\ Ev.e = "seq" /\ (Chk("size", Ev.oN = Len(Ev.p)) = TRUE) /\ Adv /\ p' = Ev.p /\ UNCHANGED R
    \/ More /\ Ev.e = "all" /\ (JudgeAll(Ev) = TRUE) /\ Adv /\ UNCHANGED p /\ UNCHANGED R
    \/ More /\ Ev.e = "left" /\ ((InAll(Ev.oM) /\ Chk("rmq", LeftBest(V, Ev.x, Ev.y, Ev.oM))) = TRUE) /\ Adv /\ UNCHANGED p /\ UNCHANGED R
    \/ More /\ Ev.e = "right" /\ ((InAll(Ev.oM) /\ Chk("rmq", RightBest(V, Ev.y, Ev.x, Ev.oM))) = TRUE) /\ Adv /\ UNCHANGED p /\ UNCHANGED R
    \/ More /\ Ev.e = "pairs" /\ (JudgePairs(Ev) = TRUE) /\ Adv /\ UNCHANGED p /\ UNCHANGED R
    \/ More /\ Ev.e = "hb" /\ (JudgeHuge(Ev) = TRUE) /\ Adv /\ R' = Desc(Ev) /\ UNCHANGED p
    \/ More /\ Ev.e = "hm" /\ (JudgeHRmq(Ev) = TRUE) /\ Adv /\ UNCHANGED <<p, R>>
=============================================================================
