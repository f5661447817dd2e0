---------------------------- MODULE DArray64Impl ---------------------------
(* The incrementally built select structure: append1(g) writes g zeros and  *)
(* a one; every BLOCK-th one is recorded by position, every SUB-th by its   *)
(* offset from its block in a field that wraps at LIM.  Gaps are below W,   *)
(* so a block spans less than BLOCK * W positions.                          *)
EXTENDS WordSeq
B == INSTANCE Bits
CONSTANTS BLOCK, SUB, LIM, MaxOnes, Bug
ASSUME BLOCK % SUB = 0
VARIABLES b, n, blocks, subs
vars == <<b, n, blocks, subs>>
Init == b = <<>> /\ n = 0 /\ blocks = <<>> /\ subs = <<>>
Append1(g) ==
    LET s == b \o B!Fill(g, 0) \o <<1>> p == Len(s) - 1
        bl == IF n % BLOCK = 0 THEN Append(blocks, p) ELSE blocks
    IN  /\ n < MaxOnes
        /\ b' = s /\ n' = n + 1 /\ blocks' = bl
        /\ subs' = IF n % SUB = 0 THEN Append(subs, (p - bl[n \div BLOCK + 1]) % LIM) ELSE subs
Next == \E g \in 0..(IF Bug = "wide_gap" THEN W ELSE W - 1) : Append1(g)
Spec == Init /\ [][Next]_vars
ws == Packed(b)
RECURSIVE Walk(_, _, _)
Walk(x, i, r) == LET p == Pop(x) IN IF r < p THEN i * W + SelW(x, r) ELSE Walk(ws[i + 2], i + 1, r - p)
Select(idx) ==
    LET start == blocks[idx \div BLOCK + 1] + subs[idx \div SUB + 1] r == idx % SUB
    IN  IF r = 0 THEN start ELSE Walk(WAnd(ws[start \div W + 1], WNot(Low(start % W))), start \div W, r)
SelectExact == \A k \in 0..(n - 1) : Select(k) = B!Select(b, 1, k)
CountExact == n = B!Count(b, 1)
=============================================================================
