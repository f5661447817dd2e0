----------------------------- MODULE TraceC13 -----------------------------
(* Forward enumerators: three of them over two lists; each is the list it   *)
(* runs on and the index it stands at.                                      *)
(* h* lines: one enumerator over a list of billions of integers given by    *)
(* its runs (ListRuns).                                                     *)
EXTENDS TraceBase, ListRuns
VARIABLES v, on, at, R, H                         \* H: the index the enumerator over R stands at
Z == <<0, 0, 0>>
Init == l = 1 /\ v = <<<<>>, <<>>>> /\ on = Z /\ at = Z /\ R = <<>> /\ H = L0
Max(k) == CASE k = "gammabit" -> <<15, B30 - 1, B30 - 3>> [] k = "v8" -> OfInt(255) [] OTHER -> <<15, B30 - 1, B30 - 2>>
JudgeHuge(e) == Chk("sequence", IsSeq(Desc(e), Max(e.kind))) /\ Chk("size", e.oN = e.st[Len(e.st)])
(* hn: its place ip in runs is that of the index it stands at *)
JudgeHNext(e) ==
    /\ Chk("question", IsPos(R, e.ip) /\ Num(R, e.ip) = H /\ LLe(LAdd(H, OfInt(e.k)), R.st[Len(R.st)]))
    /\ Chk("next", Len(e.oV) = e.k /\ From(R, e.ip, e.k, e.oV))
Judge(e) ==
    LET x == v[on[e.c]]
        p == at[e.c]
    IN  /\ Chk("inside", on[e.c] > 0 /\ p + e.k <= Len(x))
        /\ Chk("next", Len(e.oV) = e.k /\ \A j \in 1..e.k : e.oV[j] = x[p + j])
Next ==
    \/ Neutral /\ UNCHANGED <<v, on, at, R, H>>
    \/ More /\ Ev.e = "hl" /\ (JudgeHuge(Ev) = TRUE) /\ Adv /\ R' = Desc(Ev) /\ H' = L0 /\ UNCHANGED <<v, on, at>>
    \/ More /\ Ev.e = "ho" /\ Adv /\ H' = Ev.i /\ UNCHANGED <<v, on, at, R>>
    \/ More /\ Ev.e = "hk" /\ Adv /\ H' = LAdd(H, Ev.k) /\ UNCHANGED <<v, on, at, R>>
    \/ More /\ Ev.e = "hn" /\ (JudgeHNext(Ev) = TRUE) /\ Adv /\ H' = LAdd(H, OfInt(Ev.k)) /\ UNCHANGED <<v, on, at, R>>
    \/ /\ More /\ Adv /\ UNCHANGED <<R, H>>
       /\ LET e == Ev IN
          CASE e.e = "vals" -> /\ (Chk("size", e.oN = OfInt(Len(e.v))) = TRUE)
                               /\ v' = [v EXCEPT ![e.w] = e.v]
                               /\ on' = [c \in 1..3 |-> IF on[c] = e.w THEN 0 ELSE on[c]] /\ at' = at
            [] e.e = "open" -> v' = v /\ on' = [on EXCEPT ![e.c] = e.w] /\ at' = [at EXCEPT ![e.c] = e.i]
            [] e.e = "cp" -> v' = v /\ on' = [on EXCEPT ![e.c] = on[e.f]] /\ at' = [at EXCEPT ![e.c] = at[e.f]]
            [] e.e = "nx" -> (Judge(e) = TRUE) /\ UNCHANGED <<v, on>> /\ at' = [at EXCEPT ![e.c] = @ + e.k]
            (* skipping k has the effect of taking k *)
            [] e.e = "skip" -> UNCHANGED <<v, on>> /\ at' = [at EXCEPT ![e.c] = @ + e.k]
            [] e.e = "rd" -> (Chk("read", e.oV = v[e.w][e.i + 1]) = TRUE) /\ UNCHANGED <<v, on, at>>
            [] OTHER -> FALSE
=============================================================================
