---------------------------- MODULE BuilderImpl ----------------------------
(* The builder as the library implements it: a growing array of words, the  *)
(* number of bits, and a pointer to the last word through which single bits *)
(* and fields are appended.  Growing an array may move it, which leaves     *)
(* every pointer into it dangling.  Two builders, because append reads and  *)
(* swap exchanges another one.                                              *)
(* Refinement: after every operation the words hold exactly the plain list  *)
(* that Builder gives for the same operations, with clear padding, and the  *)
(* pointer is good whenever the next append will use it.                    *)
EXTENDS WordSeq
CONSTANTS MaxLen, Bug
BD == INSTANCE Builder
X == {1, 2}
VARIABLES ideal, words, size, cur
(* cur[x]: <<owner of the array pointed into, index>>, or DANGLING *)
vars == <<ideal, words, size, cur>>
DANGLING == <<0, 0>>
Other(x) == 3 - x
Fields == UNION {[1..k -> {0, 1}] : k \in 0..W}

(* effect of moving (or not) the array of x on both pointers *)
Moved(c, x, mv) == IF mv THEN [y \in X |-> IF c[y][1] = x THEN DANGLING ELSE c[y]] ELSE c
Deref(c, x) == Assert(c[x] # DANGLING, "dangling pointer")
Back(ws) == Len(ws)

Init == \E n \in 0..(W + 1), v \in {0, 1} :
          /\ ideal = [x \in X |-> IF x = 1 THEN BD!New(n, v) ELSE <<>>]
          /\ words = [x \in X |-> IF x = 1 THEN
                (LET full == [k \in 1..WordsFor(n) |-> IF v = 1 THEN WOnes ELSE WZero]
                 IN  IF n > 0 /\ v = 1 /\ n % W # 0 THEN [full EXCEPT ![Len(full)] = Shr(@, W - (n % W))] ELSE full) ELSE <<>>]
          /\ size = [x \in X |-> IF x = 1 THEN n ELSE 0]
          /\ cur = [x \in X |-> IF x = 1 /\ n > 0 THEN <<1, WordsFor(n)>> ELSE DANGLING]

Put(x, s, ws, n, c) == /\ ideal' = [ideal EXCEPT ![x] = s] /\ words' = [words EXCEPT ![x] = ws]
                       /\ size' = [size EXCEPT ![x] = n] /\ cur' = c
(* writing through the pointer of x *)
Through(x, ws, c, f(_)) == IF Deref(c, x) THEN (IF Assert(c[x][1] = x, "foreign array") THEN [ws EXCEPT ![c[x][2]] = f(@)] ELSE ws) ELSE ws

Push(x, b, mv) ==
    LET p == size[x] % W
        grow == p = 0
        ws1 == IF grow THEN Append(words[x], WZero) ELSE words[x]
        c1 == IF grow THEN [Moved(cur, x, mv) EXCEPT ![x] = <<x, Len(ws1)>>] ELSE cur
        set(w) == WOr(w, Shl(Pad(<<b>>), p))
    IN  /\ (mv => grow) /\ Put(x, BD!Push(ideal[x], b), Through(x, ws1, c1, set), size[x] + 1, c1)
AppendBitsOf(ws, n, c, x, f, mv) == \* <<words, cur>> after append_bits
    LET p == n % W
        w == Pad(f)
        or(v) == WOr(v, Shl(w, p))
        ws1 == IF p = 0 THEN Append(ws, w)
               ELSE LET t == Through(x, ws, c, or) IN IF Len(f) > W - p THEN Append(t, Shr(w, W - p)) ELSE t
    IN  <<ws1, [Moved(c, x, mv /\ Len(ws1) > Len(ws)) EXCEPT ![x] = <<x, Len(ws1)>>]>>
AppendBits(x, f, mv) ==
    IF Len(f) = 0 THEN ~mv /\ Put(x, ideal[x], words[x], size[x], cur)
    ELSE LET r == AppendBitsOf(words[x], size[x], cur, x, f, mv)
         IN Put(x, BD!AppendField(ideal[x], f), r[1], size[x] + Len(f), r[2])
SetBit(x, pos, b) ==
    LET k == pos \div W + 1 p == pos % W IN
    Put(x, BD!SetBit(ideal[x], pos, b), [words[x] EXCEPT ![k] = WOr(WAnd(@, WNot(OneAt(p))), Shl(Pad(<<b>>), p))], size[x], cur)
SetBits(x, pos, f) ==
    IF Len(f) = 0 THEN Put(x, ideal[x], words[x], size[x], cur)
    ELSE LET k == pos \div W + 1 p == pos % W stored == W - p mask == Low(Len(f)) w == Pad(f)
             ws1 == [words[x] EXCEPT ![k] = WOr(WAnd(@, WNot(Shl(mask, p))), Shl(w, p))]
             ws2 == IF stored < Len(f)
                    THEN [ws1 EXCEPT ![k + 1] = WOr(IF Bug = "second_word" THEN @ ELSE WAnd(@, WNot(Shr(mask, stored))), Shr(w, stored))]
                    ELSE ws1
         IN  Put(x, BD!SetField(ideal[x], pos, f), ws2, size[x], cur)
ZeroExtend(x, n, mv) ==
    LET need == WordsFor(size[x] + n) - Len(words[x])
        ws1 == words[x] \o [k \in 1..need |-> WZero]
        c1 == IF need > 0 THEN [Moved(cur, x, mv) EXCEPT ![x] = <<x, Len(ws1)>>] ELSE cur
    IN  (mv => need > 0) /\ Put(x, BD!ZeroExtend(ideal[x], n), ws1, size[x] + n, c1)
RECURSIVE OnesLoop(_, _, _, _, _, _)
OnesLoop(ws, s, c, x, n, mv) ==
    IF n = 0 THEN <<ws, c>>
    ELSE LET k == IF n >= W THEN W ELSE n
             r == AppendBitsOf(ws, s, c, x, [i \in 1..k |-> 1], mv)
         IN  OnesLoop(r[1], s + k, r[2], x, n - k, mv)
OneExtend(x, n, mv) ==
    LET r == OnesLoop(words[x], size[x], cur, x, n, mv)
    IN  Put(x, BD!OneExtend(ideal[x], n), r[1], size[x] + n, r[2])
RECURSIVE Shifted(_, _, _, _)
Shifted(ws, at, src, sh) == \* the loop over source words, from word at of ws
    IF Len(src) = 1
    THEN LET w1 == [ws EXCEPT ![at] = WOr(@, Shl(src[1], sh))]
         IN  IF at < Len(ws) THEN [w1 EXCEPT ![at + 1] = Shr(src[1], W - sh)] ELSE w1
    ELSE Shifted([ws EXCEPT ![at] = WOr(@, Shl(src[1], sh)), ![at + 1] = Shr(src[1], W - sh)], at + 1, Tail(src), sh)
AppendOther(x, mv) ==
    LET y == Other(x) IN
    IF size[y] = 0 THEN ~mv /\ Put(x, ideal[x], words[x], size[x], cur)
    ELSE LET pos == Len(words[x]) sh == size[x] % W n == size[x] + size[y]
             ws0 == words[x] \o [k \in 1..(WordsFor(n) - pos) |-> WZero]
             ws1 == IF sh = 0 THEN [k \in 1..Len(ws0) |-> IF k > pos THEN words[y][k - pos] ELSE ws0[k]]
                    ELSE Shifted(ws0, pos, words[y], sh)
         IN  Put(x, BD!AppendAll(ideal[x], ideal[y]), ws1, n, [Moved(cur, x, mv /\ Len(ws0) > pos) EXCEPT ![x] = <<x, Len(ws1)>>])
RECURSIVE RevLoop(_, _, _, _, _)
RevLoop(ws, i, sh, rem, acc) ==
    IF i > Len(ws) THEN IF Assert(rem = WZero, "remainder") THEN acc ELSE acc
    ELSE IF sh # W THEN RevLoop(ws, i + 1, sh, Shr(ws[i], W - sh), Append(acc, WRev(WOr(rem, Shl(ws[i], sh)))))
         ELSE RevLoop(ws, i + 1, sh, rem, Append(acc, WRev(ws[i])))
Reverse(x) ==
    LET r == RevLoop(words[x], 1, W - (size[x] % W), WZero, <<>>)
    IN  Put(x, BD!Reversed(ideal[x]), [k \in 1..Len(r) |-> r[Len(r) + 1 - k]], size[x], cur)
Reserve(x) == \* moves the array
    LET c1 == Moved(cur, x, TRUE)
    IN  Put(x, ideal[x], words[x], size[x], IF words[x] # <<>> /\ Bug # "reserve" THEN [c1 EXCEPT ![x] = <<x, Len(words[x])>>] ELSE c1)
Flip(c) == [y \in X |-> IF c[y] = DANGLING THEN DANGLING ELSE <<Other(c[y][1]), c[y][2]>>]  \* arrays keep their place, owners change
Swap == /\ ideal' = [x \in X |-> ideal[Other(x)]] /\ words' = [x \in X |-> words[Other(x)]] /\ size' = [x \in X |-> size[Other(x)]]
        /\ cur' = (IF Bug = "swap" THEN Flip(cur) ELSE [x \in X |-> Flip(cur)[Other(x)]])

Room(x, n) == size[x] + n <= MaxLen
Next ==
    \/ \E x \in X, mv \in BOOLEAN :
         \/ Room(x, 1) /\ \E b \in {0, 1} : Push(x, b, mv)
         \/ \E f \in Fields : Room(x, Len(f)) /\ AppendBits(x, f, mv)
         \/ \E n \in 0..(2 * W + 1) : Room(x, n) /\ (ZeroExtend(x, n, mv) \/ OneExtend(x, n, mv))
         \/ Room(x, size[Other(x)]) /\ AppendOther(x, mv)
    \/ \E x \in X :
         \/ \E pos \in 0..(size[x] - 1), b \in {0, 1} : SetBit(x, pos, b)
         \/ \E f \in Fields, pos \in 0..size[x] : pos + Len(f) <= size[x] /\ pos < Len(words[x]) * W /\ SetBits(x, pos, f)
         \/ Reverse(x) \/ Reserve(x)
    \/ Swap
Spec == Init /\ [][Next]_vars
Refines == \A x \in X : words[x] = Packed(ideal[x]) /\ size[x] = Len(ideal[x])
PointerGood == \A x \in X : size[x] % W # 0 => cur[x] = <<x, Len(words[x])>>
=============================================================================
