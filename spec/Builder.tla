------------------------------ MODULE Builder ------------------------------
(* What each builder operation means on a plain list of bits.               *)
(* A word argument is given by its bits, lowest first.                      *)
EXTENDS Bits

New(n, v)           == Fill(n, v)
Push(s, b)          == Append(s, b)
SetBit(s, pos, b)   == [s EXCEPT ![pos + 1] = b]
SetField(s, pos, w) == SubSeq(s, 1, pos) \o w \o SubSeq(s, pos + Len(w) + 1, Len(s))
AppendField(s, w)   == s \o w
ZeroExtend(s, n)    == s \o Fill(n, 0)
OneExtend(s, n)     == s \o Fill(n, 1)
AppendAll(s, t)     == s \o t
Reversed(s)         == Rev(s)

(* when an operation may be called *)
SetOk(s, pos)           == pos >= 0 /\ pos < Len(s)
SetFieldOk(s, pos, len) == pos >= 0 /\ len >= 0 /\ pos + len <= Len(s) /\ len <= 64
=============================================================================
