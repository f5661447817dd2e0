---------------------------- MODULE CursorImpl -----------------------------
(* The two cursors as the library implements them over W-bit words: the     *)
(* sequential reader (position, shift buffer, number of buffered bits) and  *)
(* the one-enumerator (position, remaining bits of the current word).       *)
(* Every bit vector up to MaxLen, every start, every call history.  Each    *)
(* call must return what the definitions of Cursors/Bits give for the bits  *)
(* at the cursor's place.                                                   *)
EXTENDS WordSeq
B == INSTANCE Bits
CONSTANTS MaxLen, Bug
VARIABLES kind, b, rp, rbuf, rav,          \* reader: position, buffer, bits available
          up, ubuf, place, ok
vars == <<kind, b, rp, rbuf, rav, up, ubuf, place, ok>>

ws == Packed(b)
Word(i) == IF Assert(i >= 0 /\ i < Len(ws), "word out of range") THEN ws[i + 1] ELSE WZero
GetWord(pos) ==
    IF Assert(pos < Len(b), "get_word out of range")
    THEN LET k == pos \div W s == pos % W w == Shr(Word(k), s)
         IN  IF s # 0 /\ k + 1 < Len(ws) THEN WOr(w, Shl(Word(k + 1), W - s)) ELSE w
    ELSE WZero
Head0(w, l) == SubSeq(w, 1, l)               \* the low l bits

Init == /\ kind \in {"reader", "ones"}
        /\ b \in B!UpTo(MaxLen) /\ b # <<>>
        /\ rp \in (IF kind = "reader" THEN 0..Len(b) ELSE {0}) /\ rbuf = WZero /\ rav = 0
        /\ up \in (IF kind = "ones" THEN 0..(Len(b) - 1) ELSE {0})
        /\ ubuf = WAnd(Word(up \div W), WNot(Low(up % W)))
        /\ place = up /\ ok = TRUE
UU == kind = "reader" /\ UNCHANGED <<kind, b, up, ubuf, place>>
UR == kind = "ones" /\ UNCHANGED <<kind, b, rp, rbuf, rav>>

ReadBit ==
    /\ kind = "reader" /\ rp < Len(b)
    /\ LET f == rav = 0
           buf == IF f THEN GetWord(rp) ELSE rbuf
           av == IF f THEN W ELSE rav
       IN  /\ rbuf' = Shr(buf, 1) /\ rav' = av - 1 /\ rp' = rp + 1
           /\ ok' = (buf[1] = B!At(b, rp))
    /\ UU
Take(l) ==
    /\ kind = "reader" /\ rp + l <= Len(b)
    /\ LET f == rav < l
           buf == IF f THEN GetWord(rp) ELSE rbuf
           av == IF f THEN W ELSE rav
       IN  /\ rbuf' = IF l # W THEN Shr(buf, l) ELSE IF Bug = "take_word" THEN buf ELSE WZero
           /\ rav' = av - l /\ rp' = rp + l
           /\ ok' = (Head0(buf, l) = B!Field(b, rp, l))
    /\ UU
RECURSIVE ZeroLoop(_, _, _, _)
ZeroLoop(p, buf, av, zs) ==
    IF HasOne(buf) THEN [p |-> p, buf |-> buf, av |-> av, zs |-> zs]
    ELSE LET q == p + av IN ZeroLoop(q, GetWord(q), W, zs + av)
SkipZeros ==
    /\ kind = "reader" /\ B!HasSucc(b, 1, rp)
    /\ LET s == ZeroLoop(rp, rbuf, rav, 0)
           l == Lsb(s.buf)
       IN  /\ rbuf' = IF Bug = "shift_once" THEN Shr(s.buf, l + 1) ELSE Shr(Shr(s.buf, l), 1)
           /\ rav' = s.av - (l + 1) /\ rp' = s.p + l + 1
           /\ ok' = (s.zs + l = B!Succ(b, 1, rp) - rp)
    /\ UU

RECURSIVE NextLoop(_, _)
NextLoop(p, buf) == IF HasOne(buf) THEN <<p, buf>> ELSE NextLoop(p + W, Word((p + W) \div W))
Base(p) == p - (p % W)
Next1 ==
    /\ kind = "ones" /\ B!HasSucc(b, 1, place)
    /\ LET s == NextLoop(up, ubuf) l == Lsb(s[2]) q == Base(s[1]) + l
       IN  /\ up' = q /\ ubuf' = [s[2] EXCEPT ![l + 1] = 0] /\ place' = q + 1
           /\ ok' = (q = B!Succ(b, 1, place))
    /\ UR
RECURSIVE CountLoop(_, _, _, _, _)
CountLoop(p, buf, sk, k, v) ==
    LET w == Pop(buf)
    IN  IF sk + w <= k THEN CountLoop(p + W, IF v = 1 THEN Word((p + W) \div W) ELSE WNot(Word((p + W) \div W)), sk + w, k, v)
        ELSE [p |-> p, buf |-> buf, sk |-> sk]
Kth(v, k) == B!Select(b, v, B!Rank(b, v, place) + k)
HasKth(v, k) == B!Rank(b, v, place) + k < B!Count(b, v)
Skip(k, move) ==
    /\ kind = "ones" /\ HasKth(1, k)
    /\ LET s == CountLoop(up, ubuf, 0, k, 1) l == SelW(s.buf, k - s.sk) q == Base(s.p) + l
       IN  /\ ok' = (q = Kth(1, k))
           /\ IF move THEN /\ up' = q /\ place' = q
                           /\ ubuf' = IF Bug = "skip_keeps" THEN s.buf ELSE WAnd(s.buf, WNot(Low(l)))
              ELSE UNCHANGED <<up, ubuf, place>>
    /\ UR
Skip0(k) ==
    /\ kind = "ones" /\ HasKth(0, k)
    /\ LET first == IF Bug = "skip0_buffer" THEN WAnd(WNot(ubuf), WNot(Low(up % W))) ELSE WAnd(WNot(Word(up \div W)), WNot(Low(up % W)))
           s == CountLoop(up, first, 0, k, 0) l == SelW(s.buf, k - s.sk) q == Base(s.p) + l
       IN  /\ ok' = (q = Kth(0, k)) /\ up' = q /\ place' = q
           /\ ubuf' = WAnd(WNot(s.buf), WNot(Low(l)))
    /\ UR
Next == \/ ReadBit \/ SkipZeros \/ Next1 \/ (\E l \in 0..W : Take(l))
        \/ \E k \in 0..MaxLen : Skip(k, TRUE) \/ Skip(k, FALSE) \/ Skip0(k)
Spec == Init /\ [][Next]_vars
AnswersExact == ok
(* what the fields mean: the reader holds the next rav bits, zero above them; the enumerator holds the ones of its   *)
(* word from its place on                                                                                        *)
ReaderMeans == rav >= 0 /\ rav <= W /\ rbuf = [i \in 1..W |-> IF i <= rav THEN B!PadAt(b, rp + i - 1) ELSE 0]
EnumMeans == up < Len(b) /\ ubuf = [i \in 1..W |-> IF Base(up) + i - 1 >= place THEN Word(up \div W)[i] ELSE 0]
=============================================================================
