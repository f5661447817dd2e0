----------------------------- MODULE ListRuns -----------------------------
(* Sequences of billions of integers (modules TraceC12 and TraceC13) given  *)
(* by their runs as in EfRuns, but in any order: element o of run s is      *)
(* R.a[s] + o * R.d[s].                                                     *)
EXTENDS EfRuns
IsSeq(R, max) ==
    /\ IsStarts(R) /\ Len(R.a) = Runs(R) /\ Len(R.d) = Runs(R)
    /\ \A s \in 1..Runs(R) : IsLimb(R.a[s]) /\ IsLimb(R.d[s]) /\ IsLimb(Last(R, s)) /\ Last(R, s)[1] < 16 /\ LLe(Last(R, s), max)
(* the sum of the elements of run s: len * a + (len * (len - 1) / 2) * d    *)
SumRun(R, s) ==
    LET k == R.len[s]
        h == IF k % 2 = 0 THEN LMul(k \div 2, LMul(k - 1, R.d[s])) ELSE LMul(k, LMul((k - 1) \div 2, R.d[s]))
    IN  LAdd(LMul(k, R.a[s]), h)
(* t: the running sums at the starts of the runs *)
IsSums(R, t) == /\ Len(t) = Runs(R) + 1 /\ t[1] = L0
                /\ \A s \in 1..Runs(R) : IsLimb(t[s + 1]) /\ t[s + 1] = LAdd(t[s], SumRun(R, s))
=============================================================================
