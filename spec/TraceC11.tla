----------------------------- MODULE TraceC11 -----------------------------
(* Sequential decoding: three enumerators over two structures.  An          *)
(* enumerator is the structure it runs on and the index it stands at.       *)
(* h* lines: an enumerator opened at an index of a list of billions of      *)
(* values given by its runs (EfRuns).                                       *)
EXTENDS TraceBase, EliasFano, EfRuns
VARIABLES v, on, at, R
Z == <<0, 0, 0>>
Init == l = 1 /\ v = <<<<>>, <<>>>> /\ on = Z /\ at = Z /\ R = <<>>
Judge(e) ==
    LET x == v[on[e.c]]
        p == at[e.c]
    IN  /\ Chk("inside", on[e.c] > 0 /\ p + e.k <= Len(x))
        /\ Chk("next", Len(e.oV) = e.k /\ \A j \in 1..e.k : e.oV[j] = x[p + j])
JudgeHuge(e) == Chk("list", IsList(Desc(e), e.n)) /\ Chk("size", e.oN = e.n) /\ Chk("num_ones", e.oM = e.st[Len(e.st)])
JudgeHNext(e) ==
    /\ Chk("question", IsPos(R, e.ip) /\ Num(R, e.ip) = e.i /\ LLe(LAdd(e.i, OfInt(e.k)), R.st[Len(R.st)]))
    /\ Chk("next", Len(e.oV) = e.k /\ From(R, e.ip, e.k, e.oV))
Next ==
    \/ Neutral /\ UNCHANGED <<v, on, at, R>>
    \/ More /\ Ev.e = "hl" /\ (JudgeHuge(Ev) = TRUE) /\ Adv /\ R' = Desc(Ev) /\ UNCHANGED <<v, on, at>>
    \/ More /\ Ev.e = "hn" /\ (JudgeHNext(Ev) = TRUE) /\ Adv /\ UNCHANGED <<v, on, at, R>>
    \/ /\ More /\ Adv /\ UNCHANGED R
       /\ LET e == Ev IN
          CASE e.e = "vals" -> /\ ((Chk("input", IsMonotone(e.n, e.v)) /\ Chk("num_ones", e.oM = OfInt(Len(e.v)))) = TRUE)
                               /\ v' = [v EXCEPT ![e.w] = e.v]
                               /\ on' = [c \in 1..3 |-> IF on[c] = e.w THEN 0 ELSE on[c]] /\ at' = at
            [] e.e = "open" -> v' = v /\ on' = [on EXCEPT ![e.c] = e.w] /\ at' = [at EXCEPT ![e.c] = e.i]
            [] e.e = "cp" -> v' = v /\ on' = [on EXCEPT ![e.c] = on[e.f]] /\ at' = [at EXCEPT ![e.c] = at[e.f]]
            [] e.e = "nx" -> (Judge(e) = TRUE) /\ UNCHANGED <<v, on>> /\ at' = [at EXCEPT ![e.c] = @ + e.k]
            [] OTHER -> FALSE
=============================================================================
