------------------------------- MODULE Limbs -------------------------------
(* 64-bit naturals as <<hi, mid, lo>> of 4, 30 and 30 bits, because TLC     *)
(* integers have 32 bits.  Comparison is lexicographic; addition carries;   *)
(* results of 2^64 and more are not wrapped (hi may exceed 15).             *)
EXTENDS Integers, Sequences
B30 == 1073741824
IsLimb(a) == /\ Len(a) = 3 /\ a[1] >= 0 /\ a[2] \in 0..(B30 - 1) /\ a[3] \in 0..(B30 - 1)
L0 == <<0, 0, 0>>
OfInt(n) == <<0, n \div B30, n % B30>>            \* n < 2^31
LLt(a, b) == \/ a[1] < b[1]
             \/ a[1] = b[1] /\ a[2] < b[2]
             \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3]
LLe(a, b) == a = b \/ LLt(a, b)
LAdd(a, b) ==
    LET s3 == a[3] + b[3]                         \* below 2^31
        s2 == a[2] + b[2] + (IF s3 >= B30 THEN 1 ELSE 0)
    IN  <<a[1] + b[1] + (IF s2 >= B30 THEN 1 ELSE 0),
          IF s2 >= B30 THEN s2 - B30 ELSE s2,
          IF s3 >= B30 THEN s3 - B30 ELSE s3>>
LSub(a, b) ==                                     \* b <= a
    LET d3 == a[3] - b[3]
        d2 == a[2] - b[2] - (IF d3 < 0 THEN 1 ELSE 0)
    IN  <<a[1] - b[1] - (IF d2 < 0 THEN 1 ELSE 0),
          IF d2 < 0 THEN d2 + B30 ELSE d2,
          IF d3 < 0 THEN d3 + B30 ELSE d3>>
=============================================================================
