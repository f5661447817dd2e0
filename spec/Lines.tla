------------------------------- MODULE Lines -------------------------------
(* The lines of a text (a sequence of character codes): maximal pieces that *)
(* end with a newline, plus a last piece without one if it is not empty.    *)
EXTENDS Integers, Sequences, FiniteSets
LF == 10
CR == 13
Ends(t) == SelectSeq([i \in 1..Len(t) |-> i], LAMBDA i : t[i] = LF \/ i = Len(t))
LinesOf(t) == LET e == Ends(t)
              IN  [k \in 1..Len(e) |-> SubSeq(t, IF k = 1 THEN 1 ELSE e[k - 1] + 1, e[k])]
(* trimming removes every CR and LF at the end *)
RECURSIVE TrimLen(_, _)
TrimLen(s, n) == IF n > 0 /\ s[n] \in {CR, LF} THEN TrimLen(s, n - 1) ELSE n
Trimmed(s) == SubSeq(s, 1, TrimLen(s, Len(s)))
(* the buffer readers remove the newline and one CR before it *)
Chomped(s) == LET n == IF Len(s) > 0 /\ s[Len(s)] = LF THEN Len(s) - 1 ELSE Len(s)
                  m == IF n > 0 /\ s[n] = CR THEN n - 1 ELSE n
              IN  SubSeq(s, 1, m)
Shown(how, s) == IF how = "keep" THEN s ELSE IF how = "trim" THEN Trimmed(s) ELSE Chomped(s)
Expected(how, t) == LET ls == LinesOf(t) IN [k \in 1..Len(ls) |-> Shown(how, ls[k])]
=============================================================================
