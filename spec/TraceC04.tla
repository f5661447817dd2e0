----------------------------- MODULE TraceC04 -----------------------------
(* Rank/select traces: "rs" lines hold complete tables of a vector's        *)
(* answers; h* lines probe vectors of more than 2^32 bits, given by the     *)
(* positions p of their rare bit value v.                                   *)
EXTENDS TraceBase, Tables, SparseBits

VARIABLE hv        \* the huge vector being probed

Judge(e) ==
    /\ Chk("size", e.oSize = Len(e.b))
    /\ Chk("access", AccessTable(e.b, e.oAcc))
    /\ Chk("rank", RankTable(e.b, e.oRank))
    /\ Chk("rank0", Rank0Table(e.b, e.oRank0))
    /\ Chk("num_ones", e.oOnes = e.oRank[Len(e.b) + 1])
    /\ Chk("num_zeros", e.oZeros = e.oRank0[Len(e.b) + 1])
    /\ Chk("select", SelectTable(e.b, 1, e.oOnes, e.oSel))
    /\ Chk("select0", SelectTable(e.b, 0, e.oZeros, e.oSel0))

JudgeHuge(e) ==
    LET m == OfInt(Len(e.p))
        rare == IF e.v = 1 THEN e.oOnes ELSE e.oZeros
        common == IF e.v = 1 THEN e.oZeros ELSE e.oOnes
    IN  /\ Chk("positions", Positions(e.p, e.n))
        /\ Chk("size", e.oSize = e.n)
        /\ Chk("rare count", rare = m)
        /\ Chk("common count", LAdd(common, m) = e.n)
JudgeRank(e) ==
    \A i \in 1..Len(e.q) :
        LET r == IF hv.v = 1 THEN e.oR[i] ELSE e.oR0[i]
            c == IF hv.v = 1 THEN e.oR0[i] ELSE e.oR[i]
        IN  /\ Chk("witness", Below(hv.p, e.q[i], e.w[i]))
            /\ Chk("rank", r = OfInt(e.w[i]))
            /\ Chk("rank0", LAdd(r, c) = e.q[i])
JudgeSel(e) == Chk("select rare", e.oS = hv.p)
JudgeCommon(e) ==
    \A i \in 1..Len(e.k) :
        /\ Chk("select common", Below(hv.p, e.oC[i], e.w[i]))
        /\ Chk("select common", LAdd(e.k[i], OfInt(e.w[i])) = e.oC[i])
        /\ Chk("select common", e.w[i] < Len(hv.p) => hv.p[e.w[i] + 1] # e.oC[i])
        /\ Chk("select common", LLt(e.oC[i], hv.n))

Init == l = 1 /\ hv = <<>>
Next ==
    \/ Neutral /\ UNCHANGED hv
    \/ More /\ Ev.e = "rs" /\ (Judge(Ev) = TRUE) /\ Adv /\ UNCHANGED hv
    \/ More /\ Ev.e = "hb" /\ (JudgeHuge(Ev) = TRUE) /\ Adv /\ hv' = [n |-> Ev.n, v |-> Ev.v, p |-> Ev.p]
    \/ More /\ Ev.e = "hr" /\ (JudgeRank(Ev) = TRUE) /\ Adv /\ UNCHANGED hv
    \/ More /\ Ev.e = "hs" /\ (JudgeSel(Ev) = TRUE) /\ Adv /\ UNCHANGED hv
    \/ More /\ Ev.e = "hc" /\ (JudgeCommon(Ev) = TRUE) /\ Adv /\ UNCHANGED hv
=============================================================================
