----------------------------- MODULE LinesBig -----------------------------
(* The lines (module Lines) of texts of billions of characters: a text      *)
(* ending in a newline repeated k times, and a text led by n copies of a    *)
(* character that is no terminator.                                         *)
EXTENDS Lines, EfRuns
(* p ends in LF: the lines of p^k are those of p, k times over              *)
PeriodNum(how, p, k) == LMul(k, OfInt(Len(Expected(how, p))))
PeriodLine(how, p, i) == LET x == Expected(how, p) IN x[1 + ((i - 1) % Len(x))]
(* the lines of c^n \o t, n > 0: the first is n - 1 characters longer than  *)
(* that of <<c>> \o t and starts with them                                  *)
LedLines(how, c, t) == Expected(how, <<c>> \o t)
LedLen(how, c, n, t, i) == LET k == OfInt(Len(LedLines(how, c, t)[i])) IN IF i = 1 THEN LSub(LAdd(k, n), OfInt(1)) ELSE k
=============================================================================
