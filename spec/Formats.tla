------------------------------ MODULE Formats ------------------------------
(* The published layout of frozen images.                                   *)
(*                                                                          *)
(* An image is a 64-bit flags word followed by the fields of the structure  *)
(* in order: plain fields of w bytes, vectors as a 64-bit count followed by *)
(* count packed elements of w bytes; everything little endian, no padding.  *)
(* The schemas give the order of fields; the ...Ok operators give the       *)
(* contents of the fields as functions of what the structure was built      *)
(* from.  An image is accepted when it is exactly that byte sequence.       *)
EXTENDS Integers, Sequences, FiniteSets, Limbs, SequencesExt

Pod(w) == [t |-> "p", w |-> w, f |-> <<>>]
Vec(w) == [t |-> "v", w |-> w, f |-> <<>>]
Str(f) == [t |-> "s", w |-> 0, f |-> f]
P8 == Pod(8)
V8 == Vec(8)
SBits == Str(<<P8, V8>>)
SRs   == Str(<<P8, V8, V8, V8, V8>>)
SBp   == Str(<<P8, V8, V8, V8, V8, P8, Vec(2), Vec(4)>>)
SDa   == Str(<<P8, V8, Vec(2), V8>>)
SD64  == Str(<<P8, SBits, V8, Vec(2)>>)
SEf   == Str(<<P8, SBits, SDa, SDa, SBits, Pod(1)>>)
SEfl  == Str(<<SEf>>)
SEfc  == Str(<<SEf, SBits>>)
SGv   == Str(<<SD64, SBits>>)
SNv   == Str(<<P8, Vec(1)>>)
SCt   == Str(<<SBp>>)
STk(s) == Str(<<s, SCt>>)
SUser == Str(<<P8, Vec(4), SEf, Pod(1), SRs, Str(<<Vec(2), SGv>>), Pod(2)>>)
Schema(k) ==
    CASE k = "v8" -> Vec(1) [] k = "v16" -> Vec(2) [] k = "v32" -> Vec(4) [] k = "v64" -> V8
      [] k = "bv" -> SBits [] k = "rs" -> SRs [] k = "bp" -> SBp [] k \in {"da1", "da0"} -> SDa
      [] k = "d64" -> SD64 [] k \in {"ef", "efn"} -> SEf [] k = "efl" -> SEfl [] k = "efc" -> SEfc
      [] k \in {"gv", "gb"} -> SGv [] k = "nv" -> SNv [] k = "ct" -> SCt
      [] k = "tkv" -> STk(Vec(4)) [] k = "tkc" -> STk(SEfc) [] k = "tkg" -> STk(SGv) [] k = "user" -> SUser

(* the plain fields and vectors of a schema, in order *)
RECURSIVE Leaves(_)
Leaves(s) == IF s.t # "s" THEN <<s>> ELSE FlattenSeq([i \in 1..Len(s.f) |-> Leaves(s.f[i])])

P256 == <<1, 256, 65536, 16777216>>
(* byte i (from 0) of the integer x in two's complement *)
ByteOf(x, i) == IF i > 3 THEN (IF x < 0 THEN 255 ELSE 0) ELSE (x \div P256[i + 1]) % 256
T2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072, 262144, 524288,
        1048576, 2097152, 4194304, 8388608, 16777216, 33554432, 67108864, 134217728, 268435456, 536870912, 1073741824>>
BitN(x, j) == IF j > 30 THEN 0 ELSE (x \div T2[j + 1]) % 2
(* bit j of a 64-bit value in limbs *)
BitL(a, j) == IF j < 30 THEN (a[3] \div T2[j + 1]) % 2
              ELSE IF j < 60 THEN (a[2] \div T2[j - 29]) % 2 ELSE (a[1] \div T2[j - 59]) % 2
ByteFrom(f(_), y) == f(8 * y) + 2 * f(8 * y + 1) + 4 * f(8 * y + 2) + 8 * f(8 * y + 3)
                     + 16 * f(8 * y + 4) + 32 * f(8 * y + 5) + 64 * f(8 * y + 6) + 128 * f(8 * y + 7)
LByte(a, i) == LET f(j) == BitL(a, j) IN ByteFrom(f, i)
Ceil(a, b) == (a + b - 1) \div b
Min2(a, b) == IF a < b THEN a ELSE b

(* ---- reading an image: img is a sequence of bytes, offsets count from 0 *)
Small(img, o) == \* the 64-bit number at o, or -1 when it is 2^30 or more
    IF /\ \A i \in 4..7 : img[o + i + 1] = 0
       /\ img[o + 4] < 64
    THEN img[o + 1] + 256 * img[o + 2] + 65536 * img[o + 3] + 16777216 * img[o + 4] ELSE -1
(* offset of the data and number of elements of each leaf; n = -1: does not fit *)
Parse(img, ls) ==
    FoldLeft(LAMBDA acc, s :
        IF acc.end < 0 THEN acc
        ELSE IF s.t = "p" THEN
             IF acc.end + s.w > Len(img) THEN [acc EXCEPT !.end = -1]
             ELSE [end |-> acc.end + s.w, at |-> Append(acc.at, acc.end), n |-> Append(acc.n, 1)]
        ELSE IF acc.end + 8 > Len(img) THEN [acc EXCEPT !.end = -1]
             ELSE LET c == Small(img, acc.end)
                  IN  IF c < 0 \/ c > Len(img) \/ acc.end + 8 + c * s.w > Len(img) THEN [acc EXCEPT !.end = -1]
                      ELSE [end |-> acc.end + 8 + c * s.w, at |-> Append(acc.at, acc.end + 8), n |-> Append(acc.n, c)],
        [end |-> 8, at |-> <<>>, n |-> <<>>], ls)

(* sizes of the size tree in preorder, as <<depth, bytes>>; k: next leaf *)
RECURSIVE NLeaves(_)
NLeaves(s) == IF s.t # "s" THEN 1 ELSE FoldLeft(LAMBDA a, x : a + NLeaves(x), 0, s.f)
RECURSIVE BytesOf(_, _, _)
BytesOf(s, cnt, k) ==
    IF s.t = "p" THEN s.w
    ELSE IF s.t = "v" THEN 8 + cnt[k] * s.w
    ELSE FoldLeft(LAMBDA a, x : [b |-> a.b + BytesOf(x, cnt, a.k), k |-> a.k + NLeaves(x)], [b |-> 0, k |-> k], s.f).b
RECURSIVE Tree(_, _, _, _)
Tree(s, cnt, k, d) ==
    IF s.t = "p" THEN <<>>
    ELSE <<<<d, BytesOf(s, cnt, k)>>>> \o
         (IF s.t = "v" THEN <<>>
          ELSE FoldLeft(LAMBDA a, x : [r |-> a.r \o Tree(x, cnt, a.k, d + 1), k |-> a.k + NLeaves(x)], [r |-> <<>>, k |-> k], s.f).r)

(* ---- contents.  I: image; P: its parse; k: first leaf of the part -------- *)
B(I, o) == I[o + 1]
PodIs(I, P, k, w, x) == \A i \in 0..(w - 1) : B(I, P.at[k] + i) = ByteOf(x, i)
PodIsL(I, P, k, a) == \A i \in 0..7 : B(I, P.at[k] + i) = LByte(a, i)
VecIs(I, P, k, w, n, f(_)) == \* n elements, element i is the integer f(i)
    /\ P.n[k] = n
    /\ \A i \in 0..(n - 1) : LET x == f(i) IN \A j \in 0..(w - 1) : B(I, P.at[k] + i * w + j) = ByteOf(x, j)
VecIsL(I, P, k, w, xs) == \* elements are the low w bytes of the limbs
    /\ P.n[k] = Len(xs)
    /\ \A i \in 1..Len(xs) : \A j \in 0..(w - 1) : B(I, P.at[k] + (i - 1) * w + j) = LByte(xs[i], j)
ImgBit(I, P, k, j) == (B(I, P.at[k] + (j \div 8)) \div T2[(j % 8) + 1]) % 2

(* a bit vector of n bits *)
BitsShape(I, P, k, n) ==
    /\ PodIs(I, P, k, 8, n)
    /\ P.n[k + 1] = Ceil(n, 64)
    /\ \A j \in n..(64 * Ceil(n, 64) - 1) : ImgBit(I, P, k + 1, j) = 0
BitsOk(I, P, k, b) ==
    LET n == Len(b)
        f(j) == IF j < n THEN b[j + 1] ELSE 0
    IN  /\ PodIs(I, P, k, 8, n)
        /\ P.n[k + 1] = Ceil(n, 64)
        /\ \A y \in 0..(8 * Ceil(n, 64) - 1) : B(I, P.at[k + 1] + y) = ByteFrom(f, y)

(* rank pairs (per 512-bit block: rank before it; seven 9-bit ranks inside  *)
(* it, most significant first), then hints: the block of every 1024th one   *)
(* (zero) followed by the number of blocks.  r[i+1]: ones before i.         *)
Hints(I, P, k, on, nb, R(_)) ==
    IF ~on THEN P.n[k] = 0
    ELSE LET tot == R(nb)
             c == IF tot > 0 THEN (tot - 1) \div 1024 ELSE 0
             h(i) == Small(I, P.at[k] + 8 * i)
         IN  /\ P.n[k] = c + 1
             /\ h(c) = nb
             /\ \A i \in 0..(c - 1) : h(i) >= 0 /\ h(i) < nb /\ R(h(i)) <= 1024 * (i + 1) /\ R(h(i) + 1) > 1024 * (i + 1)
RsOk(I, P, k, b, r, fl) ==
    LET n == Len(b)
        nb == Ceil(Ceil(n, 64), 8)
        R(j) == r[Min2(n, 512 * j) + 1]
        R0(j) == 512 * j - R(j)
        sub(j, i) == r[Min2(n, 512 * j + 64 * i) + 1] - R(j)
        sbit(j, t) == IF t = 63 \/ j = nb THEN 0 ELSE BitN(sub(j, 7 - (t \div 9)), t % 9)
    IN  /\ BitsOk(I, P, k, b)
        /\ P.n[k + 2] = 2 * nb + 2
        /\ \A j \in 0..nb : \A i \in 0..7 :
             /\ B(I, P.at[k + 2] + 16 * j + i) = ByteOf(R(j), i)
             /\ LET f(t) == sbit(j, t) IN B(I, P.at[k + 2] + 16 * j + 8 + i) = ByteFrom(f, i)
        /\ Hints(I, P, k + 3, fl % 2 = 1, nb, R)
        /\ Hints(I, P, k + 4, (fl \div 2) % 2 = 1, nb, R0)

(* minimum excess per 256-bit block relative to its 8192-bit superblock, and *)
(* a complete binary tree of minima over superblocks                         *)
RECURSIVE Pow2(_, _)
Pow2(x, n) == IF x >= n THEN x ELSE Pow2(2 * x, n)
BpOk(I, P, k, b, r, fl) ==
    LET n == Len(b)
        nw == Ceil(n, 64)
        nbk == Ceil(nw, 4)
        nsb == Ceil(nbk, 32)
        exc(i) == 2 * r[i + 1] - i
        inner == Pow2(1, nsb)
        I16(i) == LET o == P.at[k + 6] + 2 * i
                      u == B(I, o) + 256 * B(I, o + 1) IN IF u >= 32768 THEN u - 65536 ELSE u
        T(i) == Small(I \o <<0, 0, 0, 0>>, P.at[k + 7] + 4 * i)
        Node(i) == LET o == P.at[k + 7] + 4 * i IN
                     B(I, o) + 256 * B(I, o + 1) + 65536 * B(I, o + 2) + 16777216 * B(I, o + 3)
        MinIs(lo, hi, m) == (\A i \in lo..hi : exc(i) >= m) /\ (\E i \in lo..hi : exc(i) = m)
        Kid(c) == IF c < inner + nsb THEN Node(c) ELSE n
    IN  /\ RsOk(I, P, k, b, r, fl)
        /\ IF n = 0 THEN PodIs(I, P, k + 5, 8, 0) /\ P.n[k + 6] = 0 /\ P.n[k + 7] = 0
           ELSE /\ PodIs(I, P, k + 5, 8, inner)
                /\ P.n[k + 6] = nbk
                /\ P.n[k + 7] = inner + nsb
                /\ \A j \in 0..(nbk - 1) :
                     MinIs(256 * j, Min2(n, 256 * j + 256), I16(j) + exc(8192 * (j \div 32)))
                /\ \A i \in 0..(inner + nsb - 1) : B(I, P.at[k + 7] + 4 * i + 3) < 64
                /\ \A s \in 0..(nsb - 1) : MinIs(8192 * s, Min2(n, 8192 * s + 8192), Node(inner + s))
                /\ Node(0) = n
                /\ \A i \in 1..(inner - 1) : Node(i) = Min2(n, Min2(Kid(2 * i), Kid(2 * i + 1)))

(* select index over the positions p (increasing) *)
DaOk(I, P, k, p) ==
    LET m == Len(p)
        nblk == Ceil(m, 1024)
        first(j) == p[1024 * j + 1]
        last(j) == p[Min2(m, 1024 * j + 1024)]
        dense(j) == last(j) - first(j) < 65536
        before(j) == 1024 * Cardinality({i \in 0..(j - 1) : ~ dense(i)})
        blk(j) == IF dense(j) THEN first(j) ELSE - before(j) - 1
        sb(s) == LET j == s \div 32 IN IF dense(j) THEN p[32 * s + 1] - first(j) ELSE 65535
        sparse == SelectSeq([j \in 1..nblk |-> j - 1], LAMBDA j : ~ dense(j))
        over(i) == p[1024 * sparse[(i \div 1024) + 1] + (i % 1024) + 1]
        nover == IF sparse = <<>> THEN 0
                 ELSE 1024 * (Len(sparse) - 1) + (Min2(m, 1024 * sparse[Len(sparse)] + 1024) - 1024 * sparse[Len(sparse)])
    IN  /\ PodIs(I, P, k, 8, m)
        /\ VecIs(I, P, k + 1, 8, nblk, blk)
        /\ VecIs(I, P, k + 2, 2, Ceil(m, 32), sb)
        /\ VecIs(I, P, k + 3, 8, nover, over)

(* the incremental select structure: gap g[i] zeros before the i-th one *)
D64Ok(I, P, k, g) ==
    LET m == Len(g)
        pos == FoldLeft(LAMBDA a, x : Append(a, (IF a = <<>> THEN 0 ELSE a[Len(a)] + 1) + x), <<>>, g)
        n == IF m = 0 THEN 0 ELSE pos[m] + 1
        ones == {pos[i] : i \in 1..m}
        b == [i \in 1..n |-> IF (i - 1) \in ones THEN 1 ELSE 0]
        blk(j) == pos[1024 * j + 1]
        sb(s) == pos[64 * s + 1] - blk(s \div 16)
    IN  /\ PodIs(I, P, k, 8, m)
        /\ BitsOk(I, P, k + 1, b)
        /\ VecIs(I, P, k + 3, 8, Ceil(m, 1024), blk)
        /\ VecIs(I, P, k + 4, 2, Ceil(m, 64), sb)

(* v >> l, for results below 2^30 *)
ShrInt(a, l) == IF l >= 60 THEN a[1] \div T2[l - 59]
                ELSE IF l >= 30 THEN (IF a[1] = 0 THEN 0 ELSE a[1] * T2[61 - l]) + a[2] \div T2[l - 29]
                ELSE (IF a[2] = 0 THEN 0 ELSE a[2] * T2[31 - l]) + a[3] \div T2[l + 1]
(* largest l with m * 2^l <= n, starting from x = m *)
RECURSIVE LowWidth(_, _, _)
LowWidth(x, n, l) == IF LLe(LAdd(x, x), n) THEN LowWidth(LAdd(x, x), n, l + 1) ELSE l
(* universe n and values v in limbs; room: the number of values announced *)
EfOk(I, P, k, n, v, rank) ==
    LET m == Len(v)
        l == IF m > 0 /\ LLe(OfInt(m), n) THEN LowWidth(OfInt(m), n, 0) ELSE 0
        hn == (m + 1) + ShrInt(n, l) + 1
        hp == [i \in 1..m |-> ShrInt(v[i], l) + i - 1]
        ones == {hp[i] : i \in 1..m}
        hb == [i \in 1..hn |-> IF (i - 1) \in ones THEN 1 ELSE 0]
        zp == SelectSeq([i \in 1..hn |-> i - 1], LAMBDA j : j \notin ones)
        low == [i \in 1..(m * l) |-> BitL(v[((i - 1) \div l) + 1], (i - 1) % l)]
    IN  /\ PodIsL(I, P, k, n)
        /\ BitsOk(I, P, k + 1, hb)
        /\ DaOk(I, P, k + 3, hp)
        /\ DaOk(I, P, k + 7, IF rank THEN zp ELSE <<>>)
        /\ BitsOk(I, P, k + 11, low)
        /\ PodIs(I, P, k + 13, 1, l)
EFLEAVES == 14

L1 == <<0, 0, 1>>
L2 == <<0, 0, 2>>
IsMsb(a, j) == BitL(a, j) = 1 /\ \A i \in (j + 1)..63 : BitL(a, i) = 0
(* ln[i]: position of the highest one of x[i] + d; the bits below it, concatenated *)
LensOk(x, d, ln) == Len(ln) = Len(x) /\ \A i \in 1..Len(x) : IsMsb(LAdd(x[i], d), ln[i])
Cum(ln) == FoldLeft(LAMBDA a, y : Append(a, a[Len(a)] + y), <<0>>, ln)
LowsOk(I, P, k, x, d, ln) ==
    LET c == Cum(ln) IN
    /\ BitsShape(I, P, k, c[Len(c)])
    /\ \A i \in 1..Len(x) : LET y == LAdd(x[i], d) IN \A j \in 0..(ln[i] - 1) : ImgBit(I, P, k + 1, c[i] + j) = BitL(y, j)
EflOk(I, P, k, x, s) == \* s: running sums
    /\ Len(s) = Len(x) /\ \A i \in 1..Len(x) : s[i] = LAdd(x[i], IF i = 1 THEN L0 ELSE s[i - 1])
    /\ EfOk(I, P, k, LAdd(IF s = <<>> THEN L0 ELSE s[Len(s)], L1), s, FALSE)
EfcOk(I, P, k, x, ln) ==
    LET c == Cum(ln) IN
    /\ LensOk(x, L1, ln)
    /\ EfOk(I, P, k, OfInt(c[Len(c)] + 1), [i \in 1..Len(c) |-> OfInt(c[i])], FALSE)
    /\ LowsOk(I, P, k + EFLEAVES, x, L1, ln)
GvOk(I, P, k, x, ln) ==
    /\ LensOk(x, L1, ln)
    /\ D64Ok(I, P, k, <<0>> \o ln)
    /\ LowsOk(I, P, k + 5, x, L1, ln)
GbOk(I, P, k, x, ln) ==
    /\ LensOk(x, L2, ln)
    /\ D64Ok(I, P, k, <<0>> \o [i \in 1..Len(ln) |-> ln[i] - 1])
    /\ LowsOk(I, P, k + 5, x, L2, ln)
NvOk(I, P, k, x) ==
    LET at(i) == IF i <= Len(x) THEN x[i][3] ELSE 0
        f(i) == at(2 * i + 1) + 16 * at(2 * i + 2)
    IN  PodIs(I, P, k, 8, Len(x)) /\ VecIs(I, P, k + 1, 1, Ceil(Len(x), 2), f)

(* the tree of a sequence of preference ranks: each element pops the        *)
(* elements it is preferred to; written 0 1^pops, closed by 0 1^left 1,     *)
(* the whole reversed                                                       *)
CtBits(p) ==
    LET step(a, x) ==
            LET keep == SelectSeq(a.st, LAMBDA y : ~ (x < y))   \* the stack is non-decreasing: a suffix goes
                gone == Len(a.st) - Len(keep)
            IN  [st |-> Append(keep, x), w |-> a.w \o <<0>> \o [i \in 1..gone |-> 1]]
        z == FoldLeft(step, [st |-> <<>>, w |-> <<>>], p)
    IN  Reverse(z.w \o <<0>> \o [i \in 1..(Len(z.st) + 1) |-> 1])
CtOk(I, P, k, p) ==
    LET b == CtBits(p) IN BpOk(I, P, k, b, Cum(b), 2)
=============================================================================
