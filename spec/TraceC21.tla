----------------------------- MODULE TraceC21 -----------------------------
(* "lines": a whole text and the lines read.  "per": a text of billions of  *)
(* characters, p repeated k times; oLs are the first lines, oDiff the first *)
(* line that differs from the one a period before it.  "led": n times the   *)
(* character c, then t; of the first line its length, the last characters   *)
(* (from the last c on) and whether all before are c.                       *)
EXTENDS TraceBase, LinesBig
Judge(e) ==
    LET x == Expected(e.how, e.t) IN
    /\ Chk("number of lines", Len(e.oLs) = Len(x))
    /\ Chk("lines", e.oLs = x)
    /\ Chk("end reported", e.oEnd = 1)
JudgePer(e) ==
    /\ Chk("period", Len(e.p) > 0 /\ e.p[Len(e.p)] = LF)
    /\ Chk("number of lines", e.oN = PeriodNum(e.how, e.p, e.k))
    /\ Chk("lines", e.oLs = Expected(e.how, e.p))
    /\ Chk("later lines", e.oDiff = -1)
    /\ Chk("end reported", e.oEnd = 1)
JudgeLed(e) ==
    LET y == LedLines(e.how, e.c, e.t) IN
    /\ Chk("question", e.c \notin {LF, CR})
    /\ Chk("number of lines", Len(e.oLen) = Len(y) /\ Len(e.oLs) = Len(y))
    /\ Chk("lengths", \A i \in 1..Len(y) : e.oLen[i] = LedLen(e.how, e.c, e.n, e.t, i))
    /\ Chk("leading characters", e.oAll = 1)
    /\ Chk("lines", e.oLs = y)
    /\ Chk("end reported", e.oEnd = 1)
Init == l = 1
Next ==
    \/ Neutral
    \/ More /\ Ev.e = "lines" /\ (Judge(Ev) = TRUE) /\ Adv
    \/ More /\ Ev.e = "per" /\ (JudgePer(Ev) = TRUE) /\ Adv
    \/ More /\ Ev.e = "led" /\ (JudgeLed(Ev) = TRUE) /\ Adv
=============================================================================
