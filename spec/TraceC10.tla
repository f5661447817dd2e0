----------------------------- MODULE TraceC10 -----------------------------
(* Random access on Elias-Fano structures: "ef" gives the content and the   *)
(* complete select/delta/select_range tables, "at" the answers at           *)
(* positions of the universe.                                               *)
EXTENDS TraceBase, EliasFano, EfRuns
VARIABLES n, v, R
JudgeEf(e) ==
    LET m == Len(e.v) IN
    /\ Chk("input", IsMonotone(e.n, e.v))
    /\ Chk("size", e.oN = e.n)
    /\ Chk("num_ones", e.oM = OfInt(m))
    /\ Chk("select", e.oSel = e.v)
    /\ Chk("delta", Len(e.oDel) = m /\ \A k \in 1..m : DeltaOk(e.v, k, e.oDel[k]))
    /\ Chk("select_range", /\ Len(e.oRa) = (IF m = 0 THEN 0 ELSE m - 1) /\ Len(e.oRb) = Len(e.oRa)
                           /\ \A k \in 1..(m - 1) : e.oRa[k] = e.v[k] /\ e.oRb[k] = e.v[k + 1])
JudgeAt(e) ==
    LET m == Len(v)
        all == 1..Len(e.x)
    IN
    /\ Chk("positions", \A i \in all : LLt(e.x[i], n))
    /\ Chk("rank", Len(e.oRk) = Len(e.x) /\ \A i \in all : IsRank(v, e.x[i], e.oRk[i]))
    /\ Chk("rank of next position", \A i \in all : IsRankLe(v, e.x[i], e.oRk1[i]))
    /\ Chk("membership", \A i \in all : e.oHas[i] = IF Member(v, e.x[i], e.oRk[i]) THEN 1 ELSE 0)
    /\ Chk("predecessor", \A i \in all : (e.hp[i] = 1) = (e.oRk1[i] > 0) /\ (e.hp[i] = 1 => e.oPred[i] = v[e.oRk1[i]]))
    /\ Chk("successor", \A i \in all : (e.hs[i] = 1) = (e.oRk[i] < m) /\ (e.hs[i] = 1 => e.oSucc[i] = v[e.oRk[i] + 1]))
    /\ Chk("rank of the universe", e.oEnd = m)
JudgeHuge(e) ==
    /\ Chk("list", IsList(Desc(e), e.n))
    /\ Chk("size", e.oN = e.n)
    /\ Chk("num_ones", e.oM = e.st[Len(e.st)])
At(x, p) == IsPos(R, p) /\ Num(R, p) = x
JudgeHSel(e) ==
    LET all == 1..Len(e.i) IN
    /\ Chk("question", Len(e.ip) = Len(e.i) /\ \A k \in all : At(e.i[k], e.ip[k]) /\ IsBitPos(R, NextP(R, e.ip[k])))
    /\ Chk("select", Len(e.oSel) = Len(e.i) /\ \A k \in all : e.oSel[k] = Value(R, e.ip[k]))
    /\ Chk("delta", \A k \in all : DeltaP(R, e.ip[k], e.oDel[k]))
    /\ Chk("select_range", \A k \in all : e.oRa[k] = Value(R, e.ip[k]) /\ e.oRb[k] = Value(R, NextP(R, e.ip[k])))
JudgeHAt(e) ==
    LET all == 1..Len(e.x) IN
    /\ Chk("positions", \A k \in all : LLt(e.x[k], n))
    /\ Chk("rank", Len(e.oRk) = Len(e.x) /\ \A k \in all : At(e.oRk[k], e.rp[k]) /\ RankP(R, e.x[k], e.rp[k]))
    /\ Chk("rank of next position", \A k \in all : At(e.oRk1[k], e.rp1[k]) /\ RankLeP(R, e.x[k], e.rp1[k]))
    /\ Chk("membership", \A k \in all : e.oHas[k] = IF HasP(R, e.x[k], e.rp[k]) THEN 1 ELSE 0)
    /\ Chk("predecessor", \A k \in all : (e.hp[k] = 1) = (e.rp1[k] # Z0) /\ (e.hp[k] = 1 => e.oPred[k] = Value(R, PrevP(R, e.rp1[k]))))
    /\ Chk("successor", \A k \in all : (e.hs[k] = 1) = (e.rp[k] # EndP(R)) /\ (e.hs[k] = 1 => e.oSucc[k] = Value(R, e.rp[k])))
    /\ Chk("rank of the universe", e.oEnd = R.st[Len(R.st)])
Init == l = 1 /\ n = L0 /\ v = <<>> /\ R = <<>>
Next ==
    \/ Neutral /\ UNCHANGED <<n, v, R>>
    \/ More /\ Ev.e = "ef" /\ (JudgeEf(Ev) = TRUE) /\ Adv /\ n' = Ev.n /\ v' = Ev.v /\ UNCHANGED R
    \/ More /\ Ev.e = "at" /\ (JudgeAt(Ev) = TRUE) /\ Adv /\ UNCHANGED <<n, v, R>>
    \/ More /\ Ev.e = "hl" /\ (JudgeHuge(Ev) = TRUE) /\ Adv /\ n' = Ev.n /\ v' = <<>> /\ R' = Desc(Ev)
    \/ More /\ Ev.e = "hs" /\ (JudgeHSel(Ev) = TRUE) /\ Adv /\ UNCHANGED <<n, v, R>>
    \/ More /\ Ev.e = "ha" /\ (JudgeHAt(Ev) = TRUE) /\ Adv /\ UNCHANGED <<n, v, R>>
=============================================================================
