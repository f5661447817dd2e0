----------------------------- MODULE TraceC20 -----------------------------
EXTENDS TraceBase, Codes, SequencesExt
JudgeCodes(e) ==
    LET m == Len(e.v)
        enc == [k \in 1..m |-> Encode(e.v[k])]
    IN  /\ Chk("vbyte_size", e.oSize = [k \in 1..m |-> Len(enc[k])])
        /\ Chk("append_vbyte returns the number of bytes", e.oRet = e.oSize)
        /\ Chk("bytes", e.oBytes = e.pre \o FlattenSeq(enc))
        /\ Chk("decoded value", e.oVal = e.v)
        /\ Chk("decoded length", e.oLen = e.oSize)
JudgeNat(e) ==
    LET m == Len(e.v) IN
    /\ Chk("int2nat", e.oNat = [k \in 1..m |-> NatOf(e.v[k])])
    /\ Chk("nat2int", e.oInt = [k \in 1..m |-> IntOf(e.v[k])])
    /\ Chk("inverse", e.oBackInt = e.v /\ e.oBackNat = e.v)
Init == l = 1
Next ==
    \/ Neutral
    \/ More /\ Ev.e = "vb" /\ (JudgeCodes(Ev) = TRUE) /\ Adv
    \/ More /\ Ev.e = "nat" /\ (JudgeNat(Ev) = TRUE) /\ Adv
    \/ More /\ Ev.e = "cds" /\ (Chk("ceil_div", Ev.oQ = CeilSmall(Ev.n, Ev.d)) = TRUE) /\ Adv
    \/ More /\ Ev.e = "cdq" /\ (Chk("ceil_div", IsCeil(Ev.n, Ev.d, Ev.oQ)) = TRUE) /\ Adv
=============================================================================
