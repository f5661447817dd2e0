---------------------------- MODULE RsBitVector ----------------------------
(* Implementation-shaped model of the rank/select index: words of W bits,   *)
(* blocks of BS words, a cumulative rank and packed sub-ranks per block,    *)
(* optional hints holding the block of every HINT-th one (zero).            *)
(* The real library uses W = 64, BS = 8, HINT = 2*BS*W; the arguments for   *)
(* correctness only use HINT >= BS*W, so small constants exercise every     *)
(* boundary: partial last word, partial last block, full last block, chunk  *)
(* boundaries.                                                              *)
EXTENDS Bits, TLC
CONSTANTS W, BS, HINT, MaxLen, Bug
ASSUME HINT >= BS * W

VARIABLES bits, built, pairs, hints1, hints0
vars == <<bits, built, pairs, hints1, hints0>>

CeilDiv(x, y) == (x + y - 1) \div y
NWords(b) == CeilDiv(Len(b), W)
WordPop(b, w) == Cardinality({j \in Ones(b) : j \div W = w})

(* the build loop: one step per word, appending <<rank, subranks>> pairs;   *)
(* subranks is modelled as the sequence of packed 9-bit lanes 1..BS-1       *)
RECURSIVE BuildFrom(_, _, _, _, _, _)
BuildFrom(b, i, next, cur, subs, acc) ==
    IF i = NWords(b)
    THEN LET left == BS - (NWords(b) % BS)
             fin  == [k \in 1..left |-> IF Bug = "fill_zero" THEN 0 ELSE cur]
             all  == subs \o fin
             \* the library shifts lanes through a 63-bit word: the last BS-1 survive
             lanes == IF Len(all) > BS - 1 THEN SubSeq(all, Len(all) - BS + 2, Len(all))
                      ELSE Fill(BS - 1 - Len(all), 0) \o all
             p1   == Append(acc, lanes)
         IN  IF NWords(b) % BS # 0 /\ Bug # "no_closing_pair" THEN p1 \o <<next, Fill(BS - 1, 0)>> ELSE p1
    ELSE LET pop == WordPop(b, i)
             s   == IF i % BS # 0 THEN Append(subs, cur) ELSE subs
         IN  IF i % BS = BS - 1
             THEN BuildFrom(b, i + 1, next + pop, 0, <<>>, acc \o <<s, next + pop>>)
             ELSE BuildFrom(b, i + 1, next + pop, cur + pop, s, acc)
BuildPairs(b) == BuildFrom(b, 0, 0, 0, <<>>, <<0>>)

NumBlocks == (Len(pairs) \div 2) - 1
BlockRank(k)  == pairs[2 * k + 1]
SubRanks(k)   == pairs[2 * k + 2]
BlockRank0(k) == k * BS * W - BlockRank(k)
NumOnes == pairs[Len(pairs) - 1]

RECURSIVE HintsFrom(_, _, _, _, _)
HintsFrom(br(_), i, nb, thr, acc) ==
    IF i = nb THEN Append(acc, nb)
    ELSE IF (IF Bug = "hint_from" THEN br(i) > thr ELSE br(i + 1) > thr) THEN HintsFrom(br, i + 1, nb, thr + HINT, Append(acc, i))
         ELSE HintsFrom(br, i + 1, nb, thr, acc)

Lane(s, k) == IF k = 0 THEN 0 ELSE s[k]      \* sub-rank before word k of the block
SubBlockRank(w) == BlockRank(w \div BS) + Lane(SubRanks(w \div BS), w % BS)
RankImpl(i) ==
    IF i = Len(bits) THEN NumOnes
    ELSE SubBlockRank(i \div W) +
         Cardinality({j \in Ones(bits) : j >= (i \div W) * W /\ j < i})

RECURSIVE BSearch(_, _, _, _)
BSearch(br(_), x, y, k) ==
    IF y - x <= 1 THEN x
    ELSE LET mid == x + ((y - x) \div 2)
         IN  IF (IF Bug = "search_lt" THEN br(mid) < k ELSE br(mid) <= k) THEN BSearch(br, mid, y, k) ELSE BSearch(br, x, mid, k)

SelectImpl(v, k) ==
    LET br(i) == IF v = 1 THEN BlockRank(i) ELSE BlockRank0(i)
        h     == IF v = 1 THEN hints1 ELSE hints0
        chunk == k \div HINT
        lo    == IF h # <<>> /\ chunk # 0 THEN h[chunk] ELSE 0
        hi    == IF h # <<>> THEN h[chunk + 1] + (IF Bug = "hint_end" THEN 0 ELSE 1) ELSE NumBlocks
        blk   == BSearch(br, lo, hi, k)
        sub(j) == IF v = 1 THEN Lane(SubRanks(blk), j) ELSE j * W - Lane(SubRanks(blk), j)
        off   == Cardinality({j \in 1..(BS - 1) : IF Bug = "lane_lt" THEN sub(j) < k - br(blk) ELSE sub(j) <= k - br(blk)})
        word  == blk * BS + off
        need  == k - br(blk) - sub(off)
        \* select within the word: includes padding zeros, like the code
        cand  == {j \in (word * W)..(word * W + W - 1) : PadAt(bits, j) = v}
    IN  CHOOSE j \in cand : Cardinality({x \in cand : x < j}) = need

Init == /\ bits = <<>> /\ built = FALSE
        /\ pairs = <<>> /\ hints1 = <<>> /\ hints0 = <<>>
Push(v) == /\ ~built /\ Len(bits) < MaxLen
           /\ bits' = Append(bits, v)
           /\ UNCHANGED <<built, pairs, hints1, hints0>>
Build(w1, w0) ==
    /\ ~built /\ built' = TRUE
    /\ LET p == BuildPairs(bits)
           nb == (Len(p) \div 2) - 1
           r1(k) == p[2 * k + 1]
           r0(k) == k * BS * W - p[2 * k + 1]
       IN /\ pairs' = p
          /\ hints1' = IF w1 THEN HintsFrom(r1, 0, nb, HINT, <<>>) ELSE <<>>
          /\ hints0' = IF w0 THEN HintsFrom(r0, 0, nb, HINT, <<>>) ELSE <<>>
    /\ UNCHANGED bits
Next == (\E v \in Bit : Push(v)) \/ (\E w1, w0 \in BOOLEAN : Build(w1, w0))
Spec == Init /\ [][Next]_vars

RankCorrect == built => \A i \in 0..Len(bits) : RankImpl(i) = Rank(bits, 1, i)
SelectCorrect == built => \A v \in Bit : \A k \in 0..(Count(bits, v) - 1) :
                    SelectImpl(v, k) = Select(bits, v, k)
CountCorrect == built => NumOnes = Count(bits, 1)
Inverse == \A v \in Bit : \A k \in 0..(Count(bits, v) - 1) :
              Rank(bits, v, Select(bits, v, k)) = k
=============================================================================
