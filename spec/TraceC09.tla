----------------------------- MODULE TraceC09 -----------------------------
(* Top-k over up to two stored sequences; three enumerators.                *)
(* h* lines: sequences of billions of values given by their runs (TopRuns), *)
(* with M the greatest value; an index is logged as a number and as a place.*)
EXTENDS TraceBase, TopK, TopRuns
VARIABLES R, \* runs of a sequence of billions, and its greatest value
          v,     \* v[w]: ranks of the values stored in vector w
          en     \* en[c]: enumerator c, with the vector it runs on
Fresh == [w |-> 1] @@ Off
Stored(s) == v[s.w]

JudgeTop(e) ==
    LET x == v[e.w]
        k == Len(e.oIdx)
    IN  /\ Chk("count", k = (IF e.k < e.b - e.a + 1 THEN e.k ELSE e.b - e.a + 1))
        /\ Chk("values", Len(e.oVal) = k)
        /\ Chk("entries", IsTop(x, e.a, e.b, e.oIdx))
        /\ Chk("values", \A j \in 1..k : e.oVal[j] = x[e.oIdx[j] + 1])
JudgeEnum(e) ==
    LET x == v[e.w] IN
    /\ Chk("all entries once", Len(e.oIdx) = e.b - e.a + 1 /\ Len(e.oVal) = Len(e.oIdx))
    /\ Chk("order", InOrder(x, e.a, e.b, e.oIdx))
    /\ Chk("values", \A j \in 1..Len(e.oIdx) : e.oVal[j] = x[e.oIdx[j] + 1])
    /\ Chk("exhaustion", e.oMore = 0)
JudgeNext(e, s) ==
    /\ Chk("reports whether there is an entry", e.oOk = IF CanNext(s) THEN 1 ELSE 0)
    /\ (e.oOk = 0) => Chk("no entry", e.oIdx = -2 /\ e.oVal = -2)
    /\ (e.oOk = 1) => /\ Chk("entry", IsNext(Stored(s), s, e.oIdx))
                      /\ Chk("value", e.oVal = Stored(s)[e.oIdx + 1])
Keep == UNCHANGED <<v, en>>
Desc(e) == [k |-> e.k, len |-> e.len, v |-> e.v, st |-> e.st, top |-> e.top]
JudgeHuge(e) == Chk("runs", IsVals(Desc(e))) /\ Chk("size", e.oN = e.st[Len(e.st)])
Placed(ns, ps) == Len(ns) = Len(ps) /\ \A i \in 1..Len(ns) : IsBitPos(R, ps[i]) /\ Num(R, ps[i]) = ns[i]
Fewer(k) == LET d == LAdd(LSub(Num(R, Ev.yp), Num(R, Ev.xp)), OfInt(1)) IN IF LLt(d, OfInt(k)) THEN d[3] ELSE k
JudgeHTop(e) ==
    /\ Chk("question", Placed(<<e.x, e.y>>, <<e.xp, e.yp>>) /\ PLe(e.xp, e.yp))
    /\ Chk("count", Len(e.oIdx) = Fewer(e.k) /\ Len(e.oVal) = Len(e.oIdx))
    /\ Chk("entries", Placed(e.oIdx, e.oIp) /\ IsTopP(R, e.xp, e.yp, e.oIp))
    /\ Chk("values", \A j \in 1..Len(e.oIdx) : e.oVal[j] = R.top - Val(R, e.oIp[j]))
    /\ Chk("exhaustion", e.oMore = IF OfInt(Len(e.oIdx)) = LAdd(LSub(e.y, e.x), OfInt(1)) THEN 0 ELSE 1)
JudgeHGet(e) == Chk("question", Placed(e.x, e.xp)) /\ Chk("stored values", Len(e.oV) = Len(e.x) /\ \A j \in 1..Len(e.x) : e.oV[j] = R.top - Val(R, e.xp[j]))

Init == l = 1 /\ R = <<>> /\ v = <<<<>>, <<>>>> /\ en = <<Fresh, Fresh, Fresh>>
Next ==
    \/ Neutral /\ R' = R /\ v' = <<<<>>, <<>>>> /\ en' = <<Fresh, Fresh, Fresh>>
    \/ More /\ Ev.e = "hb" /\ (JudgeHuge(Ev) = TRUE) /\ Adv /\ R' = Desc(Ev) /\ Keep
    \/ More /\ Ev.e = "hg" /\ (JudgeHGet(Ev) = TRUE) /\ Adv /\ R' = R /\ Keep
    \/ More /\ Ev.e = "ht" /\ (JudgeHTop(Ev) = TRUE) /\ Adv /\ R' = R /\ Keep
    \/ /\ More /\ R' = R
       /\ LET e == Ev IN
          CASE e.e = "vals" -> /\ ((Chk("size", e.oN = Len(e.p)) /\ Chk("stored values", e.oV = e.p)) = TRUE)
                               /\ v' = [v EXCEPT ![e.w] = e.p] /\ en' = <<Fresh, Fresh, Fresh>>
            [] e.e = "get" -> v' = v /\ en' = [en EXCEPT ![e.c] = [w |-> e.w] @@ On(e.a, e.b)]
            [] e.e = "nxt" -> /\ (JudgeNext(e, en[e.c]) = TRUE)
                              /\ v' = v /\ en' = IF e.oOk = 1 THEN [en EXCEPT ![e.c] = After(@, e.oIdx)] ELSE en
            [] e.e = "val" -> (Chk("current value", e.oIdx = en[e.c].last /\ e.oVal = Stored(en[e.c])[e.oIdx + 1]) = TRUE) /\ Keep
            [] e.e = "cp" -> v' = v /\ en' = [en EXCEPT ![e.c] = en[e.f]]
            [] e.e = "sw" -> v' = v /\ en' = [en EXCEPT ![e.c] = en[e.f], ![e.f] = en[e.c]]
            [] e.e = "clr" -> v' = v /\ en' = [en EXCEPT ![e.c] = Fresh]
            [] e.e = "topk" -> (JudgeTop(e) = TRUE) /\ Keep
            [] e.e = "enum" -> (JudgeEnum(e) = TRUE) /\ Keep
            [] OTHER -> FALSE
       /\ Adv
=============================================================================
