------------------------------- MODULE BpImpl ------------------------------
(* The balanced-parentheses index as the library implements it: words of W  *)
(* bits searched byte by byte (bytes of YB bits, table driven), blocks of   *)
(* BB words with their minimum excess relative to the superblock,           *)
(* superblocks of SB blocks at the leaves of a complete binary tree of      *)
(* minima.  Every balanced sequence up to MaxLen; every query must give     *)
(* the definitional answer.  Real sizes: W = 64, YB = 8, BB = 4, SB = 32.   *)
EXTENDS WordSeq
B == INSTANCE Bits
CONSTANTS YB, BB, SB, MaxLen, Bug
ASSUME W % YB = 0
VARIABLES b, exc, done, bmin, tree, inner
vars == <<b, exc, done, bmin, tree, inner>>
n == Len(b)
ws == Packed(b)
Word(i) == IF Assert(i >= 0 /\ i < Len(ws), "word out of range") THEN ws[i + 1] ELSE WZero
Min2(x, y) == IF x < y THEN x ELSE y

(* ---- building ---- *)
Init == b = <<>> /\ exc = 0 /\ done = FALSE /\ bmin = <<>> /\ tree = <<>> /\ inner = 0
Open == ~done /\ n + exc + 2 <= MaxLen /\ b' = Append(b, 1) /\ exc' = exc + 1 /\ UNCHANGED <<done, bmin, tree, inner>>
Shut == ~done /\ exc > 0 /\ b' = Append(b, 0) /\ exc' = exc - 1 /\ UNCHANGED <<done, bmin, tree, inner>>
NBlocks == (Len(ws) + BB - 1) \div BB
NSuper == (NBlocks + SB - 1) \div SB
RankAt(i) == B!Rank(b, 1, i)                       \* rank is exact: RsBitVector
BlockExc(k) == LET p == k * BB * W IN 2 * (IF p <= n THEN RankAt(p) ELSE RankAt(n)) - p
RECURSIVE MinFrom(_, _, _, _)
MinFrom(i, z, e, m) == \* minimum of the excess over positions i..z, starting from excess e and minimum m
    IF i >= z THEN [e |-> e, m |-> m] ELSE LET f == e + (IF b[i + 1] = 1 THEN 1 ELSE -1) IN MinFrom(i + 1, z, f, Min2(m, f))
RECURSIVE BlockMins(_, _, _)
BlockMins(k, e, acc) == \* e: excess inside the superblock before block k
    IF k = NBlocks THEN acc
    ELSE LET e0 == IF k % SB = 0 THEN 0 ELSE e
             r == MinFrom(k * BB * W, Min2(n, (k + 1) * BB * W), e0, IF Bug = "no_start" THEN n ELSE e0)
         IN  BlockMins(k + 1, r.e, Append(acc, r.m))
RECURSIVE Pow2(_)
Pow2(k) == IF k >= NSuper THEN k ELSE Pow2(2 * k)
RECURSIVE Lift(_, _)
Lift(t, node) == IF node <= 1 THEN t ELSE Lift([t EXCEPT ![(node \div 2) + 1] = Min2(@, t[node + 1])], node - 1)
MakeTree(bm, in) ==
    LET leaf(s) == LET S == {BlockExc(s * SB) + bm[k + 1] : k \in (s * SB)..(Min2((s + 1) * SB, NBlocks) - 1)} \cup {n} IN B!MinOf(S)
        t0 == [i \in 1..(in + NSuper) |-> IF i <= in THEN n ELSE leaf(i - 1 - in)]
    IN  Lift(t0, in + NSuper - 1)
Build == /\ ~done /\ exc = 0 /\ n > 0 /\ done' = TRUE
         /\ bmin' = BlockMins(0, 0, <<>>)
         /\ inner' = Pow2(1)
         /\ tree' = MakeTree(BlockMins(0, 0, <<>>), Pow2(1))
         /\ UNCHANGED <<b, exc>>
Next == Open \/ Shut \/ Build
Spec == Init /\ [][Next]_vars

(* ---- inside a word ---- *)
NB == W \div YB
Byte(x, i) == SubSeq(x, i * YB + 1, (i + 1) * YB)
Sgn(x) == IF x = 1 THEN 1 ELSE -1
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Sgn(Head(s)) + Sum(Tail(s))
RECURSIVE FwdPos(_, _, _, _)
FwdPos(s, want, e, i) == IF i > Len(s) THEN 0 ELSE LET f == e + Sgn(s[i]) IN IF f = -want THEN i ELSE FwdPos(s, want, f, i + 1)
FwdMin(s) == LET S == {-Sum(SubSeq(s, 1, k)) : k \in 0..Len(s)} IN B!MaxOf(S)
FwdMinIdx(s) == B!MinOf({k \in 0..Len(s) : -Sum(SubSeq(s, 1, k)) = FwdMin(s)})
BwdPos(s, want) == LET S == {k \in 1..Len(s) : Sum(SubSeq(s, Len(s) - k + 1, Len(s))) = want} IN IF S = {} THEN 0 ELSE B!MinOf(S)
BwdMax(s) == B!MaxOf({Sum(SubSeq(s, Len(s) - k + 1, Len(s))) : k \in 0..Len(s)})
NONE == -1
CloseInWord(x, e) == \* position in the word where an excess of e is used up
    LET cum(i) == e + Sum(SubSeq(x, 1, i * YB))
        hit == {i \in 0..(NB - 1) : cum(i) <= FwdMin(Byte(x, i))}
    IN  IF hit = {} THEN NONE
        ELSE LET i == B!MinOf(hit) p == FwdPos(Byte(x, i), cum(i), 0, 1)
             IN  IF Assert(p > 0, "no position in byte") THEN i * YB + p - 1 ELSE NONE
OpenInWord(x, e) ==
    LET cum(i) == e - Sum(SubSeq(x, W - i * YB + 1, W))      \* i bytes taken from the top
        by(i) == Byte(x, NB - 1 - i)
        hit == {i \in 0..(NB - 1) : cum(i) <= BwdMax(by(i))}
    IN  IF hit = {} THEN NONE
        ELSE LET i == B!MinOf(hit) p == BwdPos(by(i), cum(i))
             IN  IF Assert(p > 0, "no position in byte") THEN W - (i * YB + p) ELSE NONE

(* ---- find_close ---- *)
RECURSIVE CloseInBlock(_, _, _)
CloseWords(off, e, k) == CloseInBlock(off, e, k)
CloseInBlock(off, e, k) == \* words k.. of the block at word off
    IF k >= BB THEN NONE
    ELSE LET x == Word(off + k) r == IF e <= W THEN CloseInWord(x, e) ELSE NONE
         IN  IF r # NONE THEN r + (off + k) * W ELSE CloseInBlock(off, e + Sum(x), k + 1)
CloseGuard(off, e, k) == IF (IF Bug = "guard" THEN e >= (BB - k) * W ELSE e > (BB - k) * W) THEN NONE ELSE CloseInBlock(off, e, k)
InNode(node, e) == e >= tree[node + 1]
SearchFwd(block, e) ==
    LET s == block \div SB
        S == {k \in block..(Min2((s + 1) * SB, NBlocks) - 1) : e >= BlockExc(s * SB) + bmin[k + 1]}
    IN  IF S = {} THEN NONE ELSE B!MinOf(S)
SearchBwd(block, e) ==
    LET s == block \div SB
        S == {k \in (IF Bug = "first_block" THEN s * SB + 1 ELSE s * SB)..block : e >= BlockExc(s * SB) + bmin[k + 1]}
    IN  IF S = {} THEN NONE ELSE B!MaxOf(S)
RECURSIVE UpTree(_, _, _)
UpTree(node, e, dir) ==
    IF Assert(node > 0, "left the tree") THEN
      LET back == node % 2 = dir
          nx == IF dir = 1 THEN node + 1 ELSE node - 1
      IN  IF ~back /\ InNode(nx, e) THEN nx ELSE UpTree(node \div 2, e, dir)
    ELSE 0
RECURSIVE DownTree(_, _, _)
DownTree(node, e, dir) ==
    IF node >= inner THEN node
    ELSE LET nx == node * 2 + (1 - dir)
             other == IF dir = 1 THEN nx + 1 ELSE nx - 1
         IN  IF InNode(nx, e) THEN DownTree(nx, e, dir)
             ELSE IF Assert(InNode(other, e), "neither child") THEN DownTree(other, e, dir) ELSE 0
SearchTree(block, e, dir) ==
    LET near == IF dir = 1 THEN SearchFwd(block, e) ELSE SearchBwd(block, e)
    IN  IF near # NONE THEN near
        ELSE LET s == DownTree(UpTree(inner + (block \div SB), e, dir), e, dir) - inner
             IN  IF dir = 1 THEN SearchFwd(s * SB, e) ELSE SearchBwd(s * SB + SB - 1, e)
Excess(p) == 2 * RankAt(p) - p
FindClose(pos) ==
    LET wp == (pos + 1) \div W sh == (pos + 1) % W
        x == Shr(Word(wp), sh)
        padded == IF sh = 0 THEN x ELSE WOr(x, WNot(Low(W - sh)))   \* padded with openings
        r == CloseInWord(padded, 1)
        off == (wp \div BB) * BB
        local == Sum(SubSeq(padded, 1, W - sh))
        r2 == CloseGuard(off, local + 1, (wp % BB) + 1)
    IN  IF r # NONE THEN r + pos + 1
        ELSE IF r2 # NONE THEN r2
        ELSE LET pe == Excess(pos) f == SearchTree((wp \div BB) + 1, pe, 1)
             IN  CloseGuard(f * BB, BlockExc(f) - pe, 0)

(* ---- find_open / enclose ---- *)
RECURSIVE OpenInBlock(_, _, _)
OpenInBlock(off, e, k) == \* words k - 1, k - 2, .. 0
    IF k = 0 THEN NONE
    ELSE LET x == Word(off + k - 1) r == IF e <= W THEN OpenInWord(x, e) ELSE NONE
         IN  IF r # NONE THEN r + (off + k - 1) * W ELSE OpenInBlock(off, e - Sum(x), k - 1)
OpenGuard(off, e, k) == IF e > k * W THEN NONE ELSE OpenInBlock(off, e, k)
FindOpen(pos) ==
    LET wp == pos \div W len == pos % W
        x == IF len = 0 THEN WZero ELSE Shl(Word(wp), W - len)          \* padded with closings
        r == OpenInWord(x, 1)
        off == (wp \div BB) * BB
        local == -(2 * Pop(x) - len)
        r2 == OpenGuard(off, local + 1, wp % BB)
    IN  IF r # NONE THEN r + pos - W
        ELSE IF r2 # NONE THEN r2
        ELSE LET pe == Excess(pos) - 1 f == SearchTree((wp \div BB) - 1, pe, 0)
             IN  OpenGuard(f * BB, BlockExc(f + 1) - pe, BB)

(* ---- excess_rmq: state [e, m, i]: running excess, minimum, its position *)
RmqWord(x, s, start) ==
    LET at(i) == s.e + Sum(SubSeq(x, 1, i * YB))
        RECURSIVE scan(_, _, _)
        scan(i, m, idx) == IF i = NB THEN <<m, idx>>
                           ELSE LET c == at(i) - FwdMin(Byte(x, i))
                                IN  IF (IF Bug = "not_leftmost" THEN c <= m ELSE c < m) THEN scan(i + 1, c, i) ELSE scan(i + 1, m, idx)
        r == scan(0, s.m, 0)
        e2 == s.e + Sum(x)
    IN  IF r[1] < s.m \/ (Bug = "not_leftmost" /\ r[1] = s.m) THEN [e |-> e2, m |-> r[1], i |-> start + r[2] * YB + FwdMinIdx(Byte(x, r[2]))]
        ELSE [e |-> e2, m |-> s.m, i |-> s.i]
RECURSIVE RmqWords(_, _, _)
RmqWords(x, z, s) == IF x >= z THEN s ELSE RmqWords(x + 1, z, RmqWord(Word(x), s, x * W))
RmqBlocks(x, z, s) == \* blocks x..z-1 of one superblock; s: [m, i] minimum and block
    LET base == BlockExc((x \div SB) * SB)
        RECURSIVE go(_, _)
        go(k, t) == IF k >= z THEN t ELSE go(k + 1, IF base + bmin[k + 1] < t.m THEN [m |-> base + bmin[k + 1], i |-> k] ELSE t)
    IN  IF x = z THEN s ELSE go(x, s)
T(node) == IF Assert(node + 1 <= Len(tree), "outside the tree") THEN tree[node + 1] ELSE 0
RECURSIVE MinUp(_, _, _, _, _)
MinUp(c, span, h, z, t) ==
    IF c % 2 = 0
    THEN LET sp == span + 2 ^ h
             t2 == IF sp < z /\ T(c + 1) < t.m THEN [m |-> T(c + 1), i |-> c + 1] ELSE t
         IN  IF sp >= z - 1 THEN [c |-> c + 1, span |-> sp, h |-> h, t |-> t2]
             ELSE MinUp(c \div 2, sp, h + 1, z, t2)
    ELSE MinUp(c \div 2, span, h + 1, z, t)
RECURSIVE MinDown(_, _, _, _, _)
MinDown(c, span, h, z, t) ==
    IF span <= z - 1 THEN [c |-> c, span |-> span, t |-> t]
    ELSE LET l == 2 * c rs == 2 ^ (h - 1)
         IN  IF span - rs >= z - 1 THEN MinDown(l, span - rs, h - 1, z, t)
             ELSE MinDown(l + 1, span, h - 1, z, IF T(l) < t.m THEN [m |-> T(l), i |-> l] ELSE t)
RECURSIVE Leaf(_)
Leaf(c) == IF c >= inner THEN c
           ELSE Leaf(IF 2 * c + 1 < Len(tree) /\ (IF Bug = "tree_tie" THEN T(2 * c + 1) <= T(2 * c) ELSE T(2 * c + 1) < T(2 * c)) THEN 2 * c + 1 ELSE 2 * c)
MinSuper(x, z, s) == \* superblocks x..z-1
    IF x = z THEN s
    ELSE LET t0 == [m |-> T(inner + x), i |-> inner + x] IN
         IF z - x = 1 THEN [m |-> t0.m, i |-> x]
         ELSE LET u == MinUp(inner + x, x, 0, z, t0)
                  d == MinDown(u.c, u.span, u.h, z, u.t)
                  t == IF d.span < z /\ T(d.c) < d.t.m THEN [m |-> T(d.c), i |-> d.c] ELSE d.t
              IN  IF t.m < s.m THEN [m |-> t.m, i |-> Leaf(t.i) - inner] ELSE s
ExcessRmq(x, z) ==
    LET e0 == Excess(x) IN
    IF x = z THEN [i |-> x, m |-> e0]
    ELSE
    LET wa == x \div W wb == (z - 1) \div W
        sha == x % W
        la == Min2(W - sha, z - x)
        wordA == LET y == Shr(Word(wa), sha) IN IF la = W THEN y ELSE WOr(y, WNot(Low(la)))
        s1 == RmqWord(wordA, [e |-> e0, m |-> e0, i |-> x], x)
    IN  IF wa = wb THEN s1
        ELSE
        LET ba == wa \div BB bb == wb \div BB
            s2 == [s1 EXCEPT !.e = @ - (W - la)]
            wordB == LET o == z % W IN IF o = 0 THEN Word(wb) ELSE WOr(Word(wb), WNot(Low(o)))
            s3 == IF ba = bb THEN RmqWords(wa + 1, wb, s2)
                  ELSE LET s == RmqWords(wa + 1, (ba + 1) * BB, s2)
                           sa == (ba + 1) \div SB sb == bb \div SB
                           t0 == [m |-> s.m, i |-> NONE]
                           t3 == IF sa = sb THEN RmqBlocks(ba + 1, bb, t0)
                                 ELSE LET t1 == RmqBlocks(ba + 1, (sa + 1) * SB, t0)
                                          u == MinSuper(sa + 1, sb, t0)
                                          t2 == IF u.m < s.m THEN RmqBlocks(u.i * SB, (u.i + 1) * SB, t1) ELSE t1
                                      IN  RmqBlocks(sb * SB, bb, t2)
                           q == IF t3.m < s.m THEN RmqWords(t3.i * BB, (t3.i + 1) * BB, [s EXCEPT !.e = BlockExc(t3.i)]) ELSE s
                       IN  RmqWords(bb * BB, wb, [q EXCEPT !.e = BlockExc(bb)])
        IN  RmqWord(wordB, s3, wb * W)

(* ---- what must hold ---- *)
CloseExact == done => \A p \in B!Ones(b) : FindClose(p) = B!FindClose(b, p)
OpenExact == done => /\ \A p \in B!Zeros(b) : FindOpen(p) = B!FindOpen(b, p)
                     /\ \A p \in B!Ones(b) : B!HasEnclose(b, p) => FindOpen(p) = B!Enclose(b, p)
RmqExact == done => \A x \in 0..n : \A z \in x..n :
               LET r == ExcessRmq(x, z) IN r.i = B!ExcessRmq(b, x, z) /\ r.m = B!Excess(b, r.i)
=============================================================================
