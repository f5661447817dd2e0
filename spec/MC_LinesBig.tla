---------------------------- MODULE MC_LinesBig ----------------------------
(* Exhaustive check of LinesBig against Lines for short texts.              *)
EXTENDS LinesBig
CONSTANTS MaxLen, MaxK
VARIABLES t, how
Chars == {97, LF, CR}
RECURSIVE Rep(_, _)
Rep(p, k) == IF k = 0 THEN <<>> ELSE p \o Rep(p, k - 1)
Init == t = <<>> /\ how \in {"keep", "trim", "buf"}
Next == Len(t) < MaxLen /\ how' = how /\ \E c \in Chars : t' = Append(t, c)
Spec == Init /\ [][Next]_<<t, how>>
Agrees ==
    /\ (t # <<>> /\ t[Len(t)] = LF) =>
         \A k \in 1..MaxK : LET x == Expected(how, Rep(t, k)) IN
             /\ OfInt(Len(x)) = PeriodNum(how, t, k)
             /\ \A i \in 1..Len(x) : x[i] = PeriodLine(how, t, i)
    /\ \A n \in 1..MaxK : LET x == Expected(how, Rep(<<98>>, n) \o t)
                              y == LedLines(how, 98, t)
         IN  /\ Len(x) = Len(y) /\ Len(x) >= 1
             /\ x[1] = Rep(<<98>>, n - 1) \o y[1] /\ \A i \in 2..Len(x) : x[i] = y[i]
             /\ \A i \in 1..Len(x) : OfInt(Len(x[i])) = LedLen(how, 98, OfInt(n), t, i)
=============================================================================
