----------------------------- MODULE TraceC05 -----------------------------
(* Select indexes.  "dab": both indexes over an explicit vector; "dap"/"dah": one   *)
(* index over a vector given by the positions of the indexed value;         *)
(* "d64": the incremental structure, given by the gaps appended.            *)
(* "hl": an index over positions given by their runs (EfRuns), v = 64 for   *)
(* the incremental structure; "hs": select there, an index logged as a      *)
(* number and as its run and offset.                                        *)
EXTENDS TraceBase, Tables, EfRuns
VARIABLE R

JudgeBoth(e) ==
    /\ Chk("counts", e.oC1 + e.oC0 = Len(e.b))
    (* increasing positions of the right bit, as many as the vector is long *)
    /\ Chk("ones index", SelectTable(e.b, 1, e.oC1, e.oS1))
    /\ Chk("zeros index", SelectTable(e.b, 0, e.oC0, e.oS0))
JudgeSparse(e) ==
    /\ Chk("input", \A k \in 1..Len(e.p) : e.p[k] < e.n /\ (k > 1 => e.p[k - 1] < e.p[k]))
    /\ Chk("num_positions", e.oC = Len(e.p))
    /\ Chk("select", e.oS = e.p)
JudgeHuge(e) ==
    /\ Chk("input", \A k \in 1..Len(e.p) : LLt(e.p[k], e.n) /\ (k > 1 => LLt(e.p[k - 1], e.p[k])))
    /\ Chk("num_positions", e.oC = OfInt(Len(e.p)))
    /\ Chk("select", e.oS = e.p)
JudgeInc(e) ==
    LET m == Len(e.g) IN
    /\ Chk("num_ones", e.oC = m)
    /\ Chk("select", /\ Len(e.oS) = m
                     /\ \A k \in 1..m : e.oS[k] = e.g[k] + (IF k = 1 THEN 0 ELSE e.oS[k - 1] + 1))
    /\ Chk("length", Len(e.oB) = IF m = 0 THEN 0 ELSE e.oS[m] + 1)
    /\ Chk("bits", \A k \in 1..m :
                     /\ e.oB[e.oS[k] + 1] = 1
                     /\ \A j \in (e.oS[k] - e.g[k] + 1)..e.oS[k] : e.oB[j] = 0)

JudgeRuns(e) ==
    LET D == Desc(e) IN
    /\ Chk("input", Runs(D) > 0 /\ IsList(D, e.n) /\ IsStrict(D))
    /\ Chk("num_positions", e.oC = D.st[Len(D.st)])
    /\ Chk("length", e.v = 64 => e.n = LAdd(Last(D, Runs(D)), OfInt(1)))
JudgeAt(e) ==
    /\ Chk("question", Len(e.ip) = Len(e.i) /\ \A k \in 1..Len(e.i) : IsBitPos(R, e.ip[k]) /\ Num(R, e.ip[k]) = e.i[k])
    /\ Chk("select", Len(e.oS) = Len(e.i) /\ \A k \in 1..Len(e.i) : e.oS[k] = Value(R, e.ip[k]))
Init == l = 1 /\ R = <<>>
Next ==
    \/ Neutral /\ UNCHANGED R
    \/ More /\ Ev.e = "hl" /\ (JudgeRuns(Ev) = TRUE) /\ Adv /\ R' = Desc(Ev)
    \/ More /\ Ev.e = "hs" /\ (JudgeAt(Ev) = TRUE) /\ Adv /\ UNCHANGED R
    \/ More /\ Ev.e = "dab" /\ (JudgeBoth(Ev) = TRUE) /\ Adv /\ UNCHANGED R
    \/ More /\ Ev.e = "dap" /\ (JudgeSparse(Ev) = TRUE) /\ Adv /\ UNCHANGED R
    \/ More /\ Ev.e = "dah" /\ (JudgeHuge(Ev) = TRUE) /\ Adv /\ UNCHANGED R
    \/ More /\ Ev.e = "d64" /\ (JudgeInc(Ev) = TRUE) /\ Adv /\ UNCHANGED R
=============================================================================
