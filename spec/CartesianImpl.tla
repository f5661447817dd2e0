--------------------------- MODULE CartesianImpl ---------------------------
(* The range-minimum tree as the library builds and queries it: a stack of  *)
(* values, a parenthesis sequence written back to front, and one excess     *)
(* range-minimum per query.  Values are <<key, tag>>; the order looks at    *)
(* keys only, so values that differ may be equivalent.  rank, select and    *)
(* the excess minimum are the definitions (RsBitVector, BpImpl).            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
B == INSTANCE Bits
CONSTANTS Keys, MaxLen, Bug
VARIABLES vals, stack, out, bp
vars == <<vals, stack, out, bp>>
Val == Keys \X {0, 1}
Less(x, y) == x[1] < y[1]
Init == vals = <<>> /\ stack = <<>> /\ out = <<>> /\ bp = <<>>
RECURSIVE PopWhile(_, _)
PopWhile(s, v) == IF s # <<>> /\ (IF Bug = "ties" THEN ~Less(s[Len(s)], v) ELSE Less(v, s[Len(s)]))
                  THEN PopWhile(SubSeq(s, 1, Len(s) - 1), v) ELSE s
Push(v) == /\ bp = <<>> /\ Len(vals) < MaxLen
           /\ vals' = Append(vals, v)
           /\ LET s == PopWhile(stack, v)
              IN  /\ stack' = Append(s, v)
                  /\ out' = Append(out, 0) \o B!Fill(Len(stack) - Len(s), 1)
           /\ UNCHANGED bp
Finalize == /\ bp = <<>>
            /\ bp' = B!Rev(Append(out, 0) \o B!Fill(Len(stack), 1) \o <<1>>)
            /\ UNCHANGED <<vals, stack, out>>
Next == Finalize \/ \E v \in Val : Push(v)
Spec == Init /\ [][Next]_vars
n == Len(bp) \div 2 - 1
Rmq(a, b) ==
    IF a = b THEN a ELSE
    LET t == B!Select(bp, 0, n - b - 1)
        et == t - 2 * (n - b - 1)
        x == B!Select(bp, 0, n - b)
        y == B!Select(bp, 0, n - a)
        w == B!ExcessRmq(bp, x, y)
        ew == B!Excess(bp, w)
    IN  IF (IF Bug = "strict" THEN ew > et - 1 ELSE ew >= et - 1) THEN b ELSE n - ((w - ew) \div 2)
Best(a, b) == B!MinOf({i \in a..b : \A j \in a..b : ~Less(vals[j + 1], vals[i + 1])})
Built == bp # <<>>
Shape == Built => B!Balanced(bp) /\ n = Len(vals)
RmqExact == Built => \A a \in 0..(n - 1) : \A b \in a..(n - 1) : Rmq(a, b) = Best(a, b)
=============================================================================
