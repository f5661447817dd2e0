----------------------------- MODULE TraceC17 -----------------------------
(* The word primitives against their definition on the 64 bits of a word.   *)
EXTENDS TraceBase, Words
Ones(b) == {j \in 0..63 : b[j] = 1}
NA == -2
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
JudgeWord(e) ==
    LET b == BitsOf(e.x)
        bc == [k \in 0..7 |-> b[8*k] + b[8*k+1] + b[8*k+2] + b[8*k+3] + b[8*k+4] + b[8*k+5] + b[8*k+6] + b[8*k+7]]
        n == bc[0] + bc[1] + bc[2] + bc[3] + bc[4] + bc[5] + bc[6] + bc[7]
        s == e.oS
        rb(j) == b[63 - j]
        ry(j) == b[8 * (7 - (j \div 8)) + (j % 8)]
        none == n = 0
    IN  /\ Chk("popcount", e.oPop = n)
        /\ Chk("byte_counts", e.oBc = <<bc[0] + 256 * bc[1], bc[2] + 256 * bc[3], bc[4] + 256 * bc[5], bc[6] + 256 * bc[7]>>)
        /\ Chk("bytes_sum", e.oBs = n)
        /\ Chk("reverse_bytes", e.oRy = WordOf(ry))
        /\ Chk("reverse_bits", e.oRb = WordOf(rb))
        (* s lists the ones in increasing order, all of them *)
        /\ Chk("select_in_word", /\ Len(s) = n
                                 /\ \A k \in 1..n : s[k] \in 0..63 /\ b[s[k]] = 1 /\ (k > 1 => s[k - 1] < s[k]))
        /\ Chk("msb", IF none THEN e.oM = NA ELSE e.oM = s[n])
        /\ Chk("lsb", IF none THEN e.oL = NA ELSE e.oL = s[1])
        /\ Chk("msb/lsb of a word that has one", e.oM1 = e.oM /\ e.oL1 = e.oL)
        /\ Chk("bit_position", e.oP = IF n = 1 THEN s[1] ELSE NA)
(* lanes *)
Signed(v) == IF v < 128 THEN v ELSE v - 256
B01(c) == IF c THEN 1 ELSE 0
AllPairs(e, f(_, _), n) ==
    /\ Len(e.oR) = Len(e.x)
    /\ \A i \in 1..Len(e.x) : e.oR[i] = [j \in 1..n |-> f(e.x[i][j], e.y[i][j])]
ULeq(a, b) == B01(a <= b)
SLeq(a, b) == B01(Signed(a) <= Signed(b))
JudgeZ(e) == /\ Len(e.oR) = Len(e.x)
             /\ \A i \in 1..Len(e.x) : e.oR[i] = [j \in 1..8 |-> B01(e.x[i][j] # 0)]
(* same highest bit; two zero words have none in common but compare equal, as the empty set does *)
JudgeSame(e) ==
    LET top(w) == LET b == BitsOf(w) IN IF Ones(b) = {} THEN NA ELSE Max(Ones(b))
    IN  Chk("same_msb", e.oR = B01(top(e.x) = top(e.y)))
Init == l = 1
Next ==
    \/ Neutral
    \/ More /\ Ev.e = "w" /\ (JudgeWord(Ev) = TRUE) /\ Adv
    \/ More /\ Ev.e = "u8" /\ (Chk("uleq_step_8", AllPairs(Ev, ULeq, 8)) = TRUE) /\ Adv
    \/ More /\ Ev.e = "s8" /\ (Chk("leq_step_8", AllPairs(Ev, SLeq, 8)) = TRUE) /\ Adv
    \/ More /\ Ev.e = "z8" /\ (Chk("zcompare_step_8", JudgeZ(Ev)) = TRUE) /\ Adv
    \/ More /\ Ev.e = "u9" /\ (Chk("uleq_step_9", AllPairs(Ev, ULeq, 7)) = TRUE) /\ Adv
    \/ More /\ Ev.e = "sm" /\ (JudgeSame(Ev) = TRUE) /\ Adv
=============================================================================
