----------------------------- MODULE TraceC12 -----------------------------
(* A list is the sequence it was built from; the prefix-sum list also       *)
(* reports the total, given here by its running sums s.                     *)
(* h* lines: a list of billions of integers given by its runs (ListRuns);   *)
(* of the prefix-sum list the running sums are those of the runs.           *)
EXTENDS TraceBase, ListRuns
VARIABLE R
Max(k) == CASE k = "gammabit" -> <<15, B30 - 1, B30 - 3>> [] k = "nibble" -> OfInt(15) [] k = "v8" -> OfInt(255) [] OTHER -> <<15, B30 - 1, B30 - 2>>
JudgeHuge(e) ==
    /\ Chk("sequence", IsSeq(Desc(e), Max(e.kind)))
    /\ Chk("size", e.oN = e.st[Len(e.st)])
    /\ e.sk = 0 => Chk("no total", e.oSum = L0)
    /\ e.sk = 1 => Chk("running sums", IsSums(Desc(e), e.s)) /\ Chk("sum", e.oSum = e.s[Len(e.s)])
JudgeGet(e) ==
    /\ Chk("lengths", Len(e.ip) = Len(e.i) /\ Len(e.oV) = Len(e.i))
    /\ \A k \in 1..Len(e.i) : /\ Chk("question", IsBitPos(R, e.ip[k]) /\ Num(R, e.ip[k]) = e.i[k])
                              /\ Chk("value", e.oV[k] = Value(R, e.ip[k]))
Judge(e) ==
    LET n == Len(e.v) IN
    /\ Chk("size", e.oN = OfInt(n))
    /\ Chk("values", e.oV = e.v)
    /\ Chk("values in any order", Len(e.oW) = Len(e.ix) /\ \A k \in 1..Len(e.ix) : e.oW[k] = e.v[e.ix[k] + 1])
    /\ e.sk = 0 => Chk("no total", e.oSum = L0)
    /\ e.sk = 1 =>
         /\ Chk("running sums", Len(e.s) = n /\ \A k \in 1..n : e.s[k] = LAdd(e.v[k], IF k = 1 THEN L0 ELSE e.s[k - 1]))
         /\ Chk("sum", e.oSum = IF n = 0 THEN L0 ELSE e.s[n])
Init == l = 1 /\ R = <<>>
Next ==
    \/ Neutral /\ UNCHANGED R
    \/ More /\ Ev.e = "list" /\ (Judge(Ev) = TRUE) /\ Adv /\ UNCHANGED R
    \/ More /\ Ev.e = "hlist" /\ (JudgeHuge(Ev) = TRUE) /\ Adv /\ R' = Desc(Ev)
    \/ More /\ Ev.e = "hget" /\ (JudgeGet(Ev) = TRUE) /\ Adv /\ UNCHANGED R
=============================================================================
