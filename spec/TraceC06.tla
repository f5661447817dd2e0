----------------------------- MODULE TraceC06 -----------------------------
(* Matching and enclosing parentheses: complete tables; h* lines probe      *)
(* sequences of billions of parentheses given by their runs (BpRuns).  A    *)
(* position there is logged as a number and as its run and offset.          *)
EXTENDS TraceBase, Tables, BpRuns
VARIABLE R
Judge(e) ==
    /\ Chk("size", e.oN = Len(e.b))
    /\ Chk("find_open/enclose", UpTable(e.b, e.oUp))
    /\ Chk("find_close", CloseTable(e.b, e.oUp, e.oClose))
Desc(e) == [k |-> e.k, len |-> e.len, E |-> e.E, st |-> e.st]
JudgeHuge(e) ==
    /\ Chk("runs", IsRuns(Desc(e)))
    /\ Chk("size", e.oN = e.st[Len(e.st)])
(* the questions are where they claim to be, and so are the answers *)
Placed(ns, ps) == Len(ns) = Len(ps) /\ \A i \in 1..Len(ns) : IsBitPos(R, ps[i]) /\ Num(R, ps[i]) = ns[i]
JudgeClose(e) ==
    /\ Chk("question", Placed(e.q, e.p) /\ \A i \in 1..Len(e.p) : Opens(R, e.p[i]))
    /\ Chk("find_close", Placed(e.oJ, e.oP) /\ Len(e.oJ) = Len(e.q) /\ \A i \in 1..Len(e.q) : Matches(R, e.p[i], e.oP[i]))
JudgeOpen(e) ==
    /\ Chk("question", Placed(e.q, e.p) /\ \A i \in 1..Len(e.p) : ~Opens(R, e.p[i]))
    /\ Chk("find_open", Placed(e.oJ, e.oP) /\ Len(e.oJ) = Len(e.q) /\ \A i \in 1..Len(e.q) : Matches(R, e.oP[i], e.p[i]))
JudgeUp(e) ==
    /\ Chk("question", Placed(e.q, e.p) /\ \A i \in 1..Len(e.p) : Opens(R, e.p[i]) /\ Exc(R, e.p[i]) > 0)
    /\ Chk("enclose", Placed(e.oJ, e.oP) /\ Len(e.oJ) = Len(e.q) /\ \A i \in 1..Len(e.q) : Encloses(R, e.oP[i], e.p[i]))
Init == l = 1 /\ R = <<>>
Next == \/ Neutral /\ UNCHANGED R
        \/ More /\ Ev.e = "bp" /\ (Judge(Ev) = TRUE) /\ Adv /\ UNCHANGED R
        \/ More /\ Ev.e = "hb" /\ (JudgeHuge(Ev) = TRUE) /\ Adv /\ R' = Desc(Ev)
        \/ More /\ Ev.e = "hc" /\ (JudgeClose(Ev) = TRUE) /\ Adv /\ UNCHANGED R
        \/ More /\ Ev.e = "ho" /\ (JudgeOpen(Ev) = TRUE) /\ Adv /\ UNCHANGED R
        \/ More /\ Ev.e = "hu" /\ (JudgeUp(Ev) = TRUE) /\ Adv /\ UNCHANGED R
=============================================================================
