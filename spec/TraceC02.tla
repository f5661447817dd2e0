----------------------------- MODULE TraceC02 -----------------------------
(* Reads of a bit vector against the stored bits; h* lines read vectors of  *)
(* billions of bits given by the positions of their rare bit value.         *)
EXTENDS TraceBase, Tables, SparseBits
VARIABLE S         \* the huge vector being read

JudgeTables(e) ==
    /\ Chk("size", e.oSize = Len(e.b))
    /\ Chk("access", AccessTable(e.b, e.oAcc))
    /\ Chk("predecessor0", PredTable(e.b, 0, e.oP0))
    /\ Chk("predecessor1", PredTable(e.b, 1, e.oP1))
    /\ Chk("successor0", SuccTable(e.b, 0, e.oS0))
    /\ Chk("successor1", SuccTable(e.b, 1, e.oS1))
JudgeWords(e) ==
    LET n == Len(e.b)
        bytes == ((n + 63) \div 64) * 8
        m == IF n = 0 THEN 0 ELSE IF (bytes - 8) * 8 + 8 <= n THEN (bytes - 8) * 8 + 8 ELSE n
    IN  /\ Chk("words asked", Len(e.oW) = n /\ Len(e.oW56) = m)
        /\ Chk("get_word", \A i \in 1..n : e.oW[i] = FieldWord(e.b, i - 1, 64))
        /\ Chk("get_word56", \A i \in 1..m : e.oW56[i] = FieldWord(e.b, i - 1, 56))
JudgeFields(e) ==
    /\ Chk("fields asked", Len(e.oF) = Len(e.q) /\ Len(e.q) > 0)
    /\ Chk("get_bits", \A i \in 1..Len(e.q) : e.oF[i] = FieldWord(e.b, e.q[i][1], e.q[i][2]))

JudgeHuge(e) ==
    /\ Chk("positions", IsSparse(e))
    /\ Chk("size", e.oSize = e.n)
(* questions q[i] with w[i] rare positions before them *)
JudgeHBits(e) == Chk("access", Len(e.oV) = Len(e.q) /\ \A i \in 1..Len(e.q) : BitIs(S, e.q[i], e.w[i], e.oV[i]))
JudgeHPred(e) == Chk("predecessor" \o ToString(e.x), Len(e.oC) = Len(e.q) /\ \A i \in 1..Len(e.q) : PredIs(S, e.x, e.q[i], e.w[i], e.oC[i], e.wc[i]))
JudgeHSucc(e) == Chk("successor" \o ToString(e.x), Len(e.oC) = Len(e.q) /\ \A i \in 1..Len(e.q) : KthIs(S, e.x, e.q[i], e.w[i], L0, e.oC[i], e.wc[i]))
JudgeHFlds(e) ==
    Chk(e.what, /\ Len(e.oF) = Len(e.q) /\ Len(e.q) > 0
                /\ \A i \in 1..Len(e.q) : FieldIs(S, e.q[i], e.w[i], e.len[i], e.oF[i]))
Init == l = 1 /\ S = <<>>
Next ==
    \/ Neutral /\ UNCHANGED S
    \/ More /\ Ev.e = "bv" /\ (JudgeTables(Ev) = TRUE) /\ Adv /\ UNCHANGED S
    \/ More /\ Ev.e = "words" /\ (JudgeWords(Ev) = TRUE) /\ Adv /\ UNCHANGED S
    \/ More /\ Ev.e = "flds" /\ (JudgeFields(Ev) = TRUE) /\ Adv /\ UNCHANGED S
    \/ More /\ Ev.e = "hb" /\ (JudgeHuge(Ev) = TRUE) /\ Adv /\ S' = [n |-> Ev.n, v |-> Ev.v, p |-> Ev.p]
    \/ More /\ Ev.e = "hbit" /\ (JudgeHBits(Ev) = TRUE) /\ Adv /\ UNCHANGED S
    \/ More /\ Ev.e = "hpred" /\ (JudgeHPred(Ev) = TRUE) /\ Adv /\ UNCHANGED S
    \/ More /\ Ev.e = "hsucc" /\ (JudgeHSucc(Ev) = TRUE) /\ Adv /\ UNCHANGED S
    \/ More /\ Ev.e = "hfld" /\ (JudgeHFlds(Ev) = TRUE) /\ Adv /\ UNCHANGED S
=============================================================================
