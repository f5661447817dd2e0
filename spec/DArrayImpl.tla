----------------------------- MODULE DArrayImpl ----------------------------
(* The sparse/dense select index as the library builds and reads it: the    *)
(* ones (zeros) are cut into blocks of BLOCK; a block whose first and last  *)
(* lie closer than MAXD keeps its first position and, for every SUB-th      *)
(* member, an offset stored in a field that wraps at MAXD; any other block  *)
(* lists its positions outright and keeps the (negated) place of the list.  *)
(* A query starts at the sub-block's position and counts bits word by word. *)
(* The real sizes are W = 64, BLOCK = 1024, SUB = 32, MAXD = 65536.         *)
EXTENDS WordSeq
B == INSTANCE Bits
CONSTANTS BLOCK, SUB, MAXD, MaxLen, Bug
ASSUME BLOCK % SUB = 0
VARIABLES b, v, w, cur, inv, sub, ovf, n
vars == <<b, v, w, cur, inv, sub, ovf, n>>
ws == Packed(b)
Get(i) == IF v = 1 THEN ws[i + 1] ELSE WNot(ws[i + 1])     \* word i as the index sees it: padding is ones for v = 0
Init == b \in B!UpTo(MaxLen) /\ v \in {0, 1} /\ w = 0 /\ cur = <<>> /\ inv = <<>> /\ sub = <<>> /\ ovf = <<>> /\ n = 0

Close(c, far) == IF Bug = "le" THEN far <= MAXD ELSE far < MAXD
Flushed(c, s) == \* s: [inv, sub, ovf] with the block c appended
    LET far == c[Len(c)] - c[1]
        firsts == [k \in 1..((Len(c) + SUB - 1) \div SUB) |-> c[(k - 1) * SUB + 1]]
    IN  IF Close(c, far)
        THEN [inv |-> Append(s.inv, c[1]), sub |-> s.sub \o [k \in 1..Len(firsts) |-> (firsts[k] - c[1]) % MAXD], ovf |-> s.ovf]
        ELSE [inv |-> Append(s.inv, -Len(s.ovf) - 1), ovf |-> s.ovf \o c,
              sub |-> IF Bug = "no_filler" THEN s.sub ELSE s.sub \o [k \in 1..Len(firsts) |-> MAXD - 1]]
RECURSIVE Scan(_, _)
Scan(ps, s) == \* the members found in one word, in order
    IF ps = <<>> THEN s
    ELSE LET p == Head(ps) IN
         IF p >= Len(b) /\ Bug # "padding" THEN s      \* padding: leave the loop
         ELSE LET c == Append(s.cur, p)
                  f == Flushed(c, s)
              IN  Scan(Tail(ps), IF Len(c) = BLOCK THEN [inv |-> f.inv, sub |-> f.sub, ovf |-> f.ovf, cur |-> <<>>, n |-> s.n + 1]
                                 ELSE [s EXCEPT !.cur = c, !.n = @ + 1])
InWord(x, base) == LET S == {j \in 1..W : x[j] = 1}
                       nth(k) == CHOOSE j \in S : Cardinality({i \in S : i < j}) = k - 1
                   IN  [k \in 1..Cardinality(S) |-> base + nth(k) - 1]
Step == /\ w < Len(ws)
        /\ LET s == Scan(InWord(Get(w), w * W), [inv |-> inv, sub |-> sub, ovf |-> ovf, cur |-> cur, n |-> n])
           IN inv' = s.inv /\ sub' = s.sub /\ ovf' = s.ovf /\ cur' = s.cur /\ n' = s.n
        /\ w' = w + 1 /\ UNCHANGED <<b, v>>
Finish == /\ w = Len(ws)
          /\ w' = w + 1
          /\ IF cur = <<>> THEN UNCHANGED <<inv, sub, ovf>>
             ELSE LET f == Flushed(cur, [inv |-> inv, sub |-> sub, ovf |-> ovf]) IN inv' = f.inv /\ sub' = f.sub /\ ovf' = f.ovf
          /\ cur' = <<>> /\ UNCHANGED <<b, v, n>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
Built == w = Len(ws) + 1

RECURSIVE Walk(_, _, _)
Walk(x, i, r) == LET p == Pop(x) IN IF r < p THEN i * W + SelW(x, r) ELSE Walk(Get(i + 1), i + 1, r - p)
Select(idx) ==
    LET bp == inv[idx \div BLOCK + 1] IN
    IF bp < 0 THEN ovf[(-bp - 1) + (IF Bug = "overflow_index" THEN idx % SUB ELSE idx % BLOCK) + 1]
    ELSE LET start == bp + sub[idx \div SUB + 1] r == idx % SUB
         IN  IF r = 0 THEN start
             ELSE LET x == Get(start \div W) IN Walk(IF Bug = "no_mask" THEN x ELSE WAnd(x, WNot(Low(start % W))), start \div W, r)
CountExact == Built => n = B!Count(b, v)
SelectExact == (Built /\ n = B!Count(b, v)) => \A k \in 0..(n - 1) : Select(k) = B!Select(b, v, k)
=============================================================================
