----------------------------- MODULE ListsImpl -----------------------------
(* The compressed integer lists as the library stores and reads them, over  *)
(* W-bit words:                                                             *)
(*   gamma      value+1 = 2^l + r: l in unary, r in l bits                  *)
(*   gammabit   value+2 = 2^(l+1) + r: l in unary, r in l+1 bits            *)
(*   ef         the running sums in an Elias-Fano structure; differences    *)
(*   efc        r of gamma in l bits, the ends of the chunks in Elias-Fano  *)
(* Random access computes the place of the low bits of an entry from the    *)
(* place of its unary one; sequential readers carry both places along, from *)
(* any index.  Every list of storable values up to MaxLen, every reading.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
B == INSTANCE Bits
CONSTANTS W, MaxLen, Bug
VARIABLES kind, v, hi, low, built, en, ok
vars == <<kind, v, hi, low, built, en, ok>>
NoEnum == [i |-> -1, pos |-> 0, up |-> 0, lp |-> 0]
RECURSIVE Msb(_)
Msb(x) == IF x <= 1 THEN 0 ELSE 1 + Msb(x \div 2)
RECURSIVE SumOf(_)
SumOf(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumOf(Tail(s))
Top == 2 ^ W - 1
Storable(x) == CASE kind = "gamma" -> x + 1 <= Top
                 [] kind = "gammabit" -> x + 2 <= Top
                 [] kind = "ef" -> SumOf(v) + x < Top
                 [] OTHER -> x + 1 <= Top
Tail1(x, l) == B!BitsOf(x % 2 ^ l, l)        \* the l bits below the leading one

Init == /\ kind \in {"gamma", "gammabit", "ef", "efc"}
        /\ v = <<>> /\ hi = IF kind \in {"gamma", "gammabit"} THEN <<1>> ELSE IF kind = "efc" THEN <<0>> ELSE <<>>
        /\ low = <<>> /\ built = FALSE /\ en = NoEnum /\ ok = TRUE
(* hi: the unary part (gamma kinds) or the list held in Elias-Fano *)
Push(x) ==
    /\ ~built /\ Len(v) < MaxLen /\ Storable(x) /\ v' = Append(v, x)
    /\ LET g == IF kind = "gammabit" THEN x + 2 ELSE x + 1 k == Msb(g) IN
       CASE kind = "gamma" -> hi' = hi \o B!Fill(k, 0) \o <<1>> /\ low' = low \o Tail1(g, k)
         [] kind = "gammabit" -> hi' = hi \o B!Fill(k - 1, 0) \o <<1>> /\ low' = low \o Tail1(g, k)
         [] kind = "ef" -> hi' = Append(hi, SumOf(v) + x) /\ low' = low
         [] OTHER -> low' = low \o Tail1(g, k) /\ hi' = Append(hi, Len(low) + k)
    /\ UNCHANGED <<kind, built, en, ok>>
Build == ~built /\ built' = TRUE /\ UNCHANGED <<kind, v, hi, low, en, ok>>

Run(p) ==                                    \* lsb(get_word(p)) on the unary part
    LET w == B!Field(hi, p, W)
    IN  IF Assert(p < Len(hi) /\ B!Ones(w) # {}, "no one in the word") THEN B!MinOf(B!Ones(w)) ELSE 0
Chunk(p, l) == IF Assert(p + l <= Len(low), "low bits out of range") THEN B!ValOf(B!Field(low, p, l)) ELSE 0
Get(i) ==
    CASE kind = "gamma" -> LET p == B!Select(hi, 1, i) l == Run(p + 1) IN 2 ^ l + Chunk(IF Bug = "low_place" THEN p ELSE p - i, l) - 1
      [] kind = "gammabit" -> LET p == B!Select(hi, 1, i) l == Run(p + 1) IN 2 ^ (l + 1) + Chunk(p, l + 1) - (IF Bug = "bias" THEN 1 ELSE 2)
      [] kind = "ef" -> hi[i + 1] - (IF i = 0 THEN 0 ELSE hi[i])
      [] OTHER -> LET l == hi[i + 2] - hi[i + 1] IN 2 ^ l + Chunk(hi[i + 1], l) - 1
Size == CASE kind \in {"gamma", "gammabit"} -> B!Count(hi, 1) - 1
          [] kind = "ef" -> Len(hi)
          [] OTHER -> Len(hi) - 1
Sum == IF hi = <<>> THEN 0 ELSE hi[Len(hi)]  \* universe - 1

Open(i) ==
    /\ built /\ en = NoEnum /\ i <= Len(v) /\ ok' = TRUE
    /\ en' = IF kind \in {"gamma", "gammabit"} /\ i < Size
             THEN LET p == B!Select(hi, 1, i)
                  IN  [i |-> i, pos |-> p, up |-> p + 1, lp |-> IF kind = "gamma" /\ Bug # "open_place" THEN p - i ELSE p]
             ELSE [NoEnum EXCEPT !.i = i]
    /\ UNCHANGED <<kind, v, hi, low, built>>
Next1 ==
    /\ built /\ en # NoEnum /\ en.i < Len(v)
    /\ IF kind \in {"ef", "efc"}             \* the generic reader: index and operator[]
       THEN en' = [en EXCEPT !.i = @ + 1] /\ ok' = (Get(en.i) = v[en.i + 1])
       ELSE LET q == B!Succ(hi, 1, en.up)
                l == q - en.pos - 1
                k == IF kind = "gammabit" THEN l + 1 ELSE l
                x == 2 ^ k + Chunk(en.lp, k) - (IF kind = "gammabit" THEN 2 ELSE 1)
            IN  /\ en' = [i |-> en.i + 1, pos |-> q, up |-> q + 1, lp |-> en.lp + (IF Bug = "advance" THEN l ELSE k)]
                /\ ok' = (x = v[en.i + 1])
    /\ UNCHANGED <<kind, v, hi, low, built>>
Next == (\E x \in 0..(2 ^ W - 1) : Push(x)) \/ Build \/ (\E i \in 0..MaxLen : Open(i)) \/ Next1
Spec == Init /\ [][Next]_vars

Fresh == built /\ en = NoEnum
SizeExact == Fresh => Size = Len(v)
GetExact == Fresh => \A i \in 0..(Len(v) - 1) : Get(i) = v[i + 1]
SumExact == Fresh /\ kind = "ef" => Sum = SumOf(v)
EnumExact == ok
(* a sequential reader of a gamma list stands at the unary one of its entry and at its low bits *)
ReaderMeans == (kind \in {"gamma", "gammabit"} /\ en.i >= 0 /\ en.i < Len(v)) =>
                    /\ en.pos = B!Select(hi, 1, en.i)
                    /\ en.lp = SumOf([k \in 1..en.i |-> Msb(v[k] + (IF kind = "gammabit" THEN 2 ELSE 1))])
=============================================================================
