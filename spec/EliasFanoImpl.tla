--------------------------- MODULE EliasFanoImpl ---------------------------
(* Elias-Fano lists as the library stores and reads them, over W-bit words: *)
(* l = msb(n/m) low bits of every value in one bit vector, the rest in      *)
(* unary (value >> l ones' positions) in another; select, rank, membership, *)
(* delta and select_range from the two; the sequential enumerator with its  *)
(* buffer of low chunks and its unary cursor.  Every universe below 2^W,    *)
(* every announced count, every non-decreasing list, every opening and      *)
(* every number of steps.                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
B == INSTANCE Bits
CONSTANTS W, MaxN, MaxM, Bug
ASSUME MaxN < 2 ^ W
VARIABLES n, m, v, built, high, low, en, ok
vars == <<n, m, v, built, high, low, en, ok>>
NoEnum == [at |-> -1, hi |-> 0, buf |-> 0, avail |-> 0]

RECURSIVE Msb(_)
Msb(x) == IF x <= 1 THEN 0 ELSE 1 + Msb(x \div 2)
l == IF m > 0 /\ n \div m > 0 THEN Msb(n \div m) ELSE 0
WMod(x) == x % (2 ^ W)                       \* word arithmetic wraps, in both directions
ShlW(x, k) == WMod(WMod(x) * 2 ^ k)
LowOf(x) == x % (2 ^ l)

(* the builder: low chunks appended, ones set in a preallocated high part *)
HighSize == IF Bug = "high_short" THEN m + (n \div 2 ^ l) ELSE (m + 1) + (n \div 2 ^ l) + 1
Init == /\ n \in 0..MaxN /\ m \in 0..MaxM
        /\ v = <<>> /\ built = FALSE /\ low = <<>> /\ high = B!Fill(HighSize, 0) /\ en = NoEnum /\ ok = TRUE
Push(x) ==
    /\ ~built /\ Len(v) < m /\ x < n /\ (v # <<>> => v[Len(v)] <= x)
    /\ v' = Append(v, x)
    /\ low' = low \o B!BitsOf(LowOf(x), l)
    /\ LET p == (x \div 2 ^ l) + Len(v) IN
       IF Assert(p < Len(high), "set outside the high bits") THEN high' = [high EXCEPT ![p + 1] = 1] ELSE FALSE
    /\ UNCHANGED <<n, m, built, en, ok>>
Build == ~built /\ built' = TRUE /\ UNCHANGED <<n, m, v, high, low, en, ok>>

(* the two primitives over the low bits *)
GetBits(i) == B!ValOf(B!Field(low, i * l, l))
GetWord(p) == IF Assert(p < Len(low), "get_word out of range") THEN B!ValOf(B!Field(low, p, W)) ELSE 0
NumOnes == B!Count(high, 1)
Sel1(k) == IF Assert(k < NumOnes, "select out of range") THEN B!Select(high, 1, k) ELSE 0
Sel0(k) == IF Assert(k < B!Count(high, 0), "select0 out of range") THEN B!Select(high, 0, k) ELSE 0
IsOne(p) == B!At(high, p) = 1

SelectImpl(k) == ShlW(Sel1(k) - k, l) + GetBits(k)
RECURSIVE Back(_, _, _)
Back(hp, r, lp) ==
    IF hp > 0 /\ IsOne(hp - 1) /\ (IF Bug = "rank_gt" THEN GetBits(r - 1) > lp ELSE GetBits(r - 1) >= lp)
    THEN Back(hp - 1, r - 1, lp) ELSE r
RankImpl(x) ==
    IF x = n THEN NumOnes
    ELSE LET hr == x \div 2 ^ l hp == Sel0(hr) IN Back(hp, hp - hr, LowOf(x))
RECURSIVE Scan(_, _, _)
Scan(hp, r, lp) ==
    IF hp > 0 /\ IsOne(hp - 1)
    THEN LET c == GetBits(r - 1) IN IF c = lp THEN TRUE ELSE IF c < lp THEN Bug = "scan_hit" ELSE Scan(hp - 1, r - 1, lp)
    ELSE FALSE
HasImpl(x) == LET hr == x \div 2 ^ l hp == Sel0(hr) IN Scan(hp, hp - hr, LowOf(x))
DeltaImpl(k) ==
    LET hv == Sel1(k) lv == GetBits(k) IN
    IF k = 0 THEN ShlW(hv, l) + lv
    ELSE LET gap == ShlW(hv - B!Pred(high, 1, hv - 1) - 1, l)
         IN  IF Bug = "delta_carry" /\ lv < GetBits(k - 1) THEN WMod(gap + (LowOf(lv - GetBits(k - 1))))
             ELSE WMod(gap + lv - GetBits(k - 1))
RangeImpl(k) ==
    LET hb == Sel1(k) he == IF Bug = "range_next" THEN hb + 1 ELSE B!Succ(high, 1, hb + 1)
    IN  <<ShlW(hb - k, l) + GetBits(k), ShlW(he - k - 1, l) + GetBits(k + 1)>>

(* the enumerator *)
InWord == W \div l
Open(i) ==
    /\ built /\ en = NoEnum /\ i < Len(v)
    /\ en' = [at |-> i, hi |-> Sel1(i), buf |-> 0, avail |-> IF l = 0 THEN NumOnes ELSE 0]
    /\ ok' = TRUE /\ UNCHANGED <<n, m, v, built, high, low>>
Step ==
    /\ built /\ en # NoEnum /\ en.at < Len(v)
    /\ LET f == en.avail = 0
           buf == IF f THEN GetWord(en.at * l) ELSE en.buf
           av == IF f THEN (IF Bug = "one_more" THEN InWord ELSE InWord - 1) ELSE en.avail - 1
           h == B!Succ(high, 1, en.hi)
           r == ShlW(h - en.at, l) + LowOf(buf)
       IN  /\ en' = [at |-> en.at + 1, hi |-> h + 1, buf |-> buf \div 2 ^ l, avail |-> av]
           /\ ok' = (r = v[en.at + 1])
    /\ UNCHANGED <<n, m, v, built, high, low>>
Next == (\E x \in 0..MaxN : Push(x)) \/ Build \/ (\E i \in 0..MaxM : Open(i)) \/ Step
Spec == Init /\ [][Next]_vars

Fresh == built /\ en = NoEnum                \* the structure does not change afterwards
SelectExact == Fresh => NumOnes = Len(v) /\ \A k \in 0..(Len(v) - 1) : SelectImpl(k) = v[k + 1]
RankExact == Fresh => \A x \in 0..n : RankImpl(x) = Cardinality({k \in 1..Len(v) : v[k] < x})
MemberExact == Fresh => \A x \in 0..(n - 1) : HasImpl(x) = (\E k \in 1..Len(v) : v[k] = x)
(* predecessor1 and successor1 are select after rank *)
DeltaExact == Fresh => \A k \in 0..(Len(v) - 1) : DeltaImpl(k) = v[k + 1] - (IF k = 0 THEN 0 ELSE v[k])
RangeExact == Fresh => \A k \in 0..(Len(v) - 2) : RangeImpl(k) = <<v[k + 1], v[k + 2]>>
EnumExact == ok
=============================================================================
