------------------------------ MODULE TopRuns ------------------------------
(* The first entries of a range (module TopK) of a sequence of billions of  *)
(* values given by its runs (ValRuns: the rank is the greatest value minus  *)
(* the value, so that smaller ranks come first, and earlier entries among   *)
(* equals).                                                                 *)
EXTENDS ValRuns, SequencesExt
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b
(* how many of the offsets a..b of run s have a rank of at most w *)
RunLe(R, s, a, b, w) ==
    MaxI(0, CASE R.k[s] = 0 -> IF R.v[s] <= w THEN b - a + 1 ELSE 0
              [] R.k[s] = 1 -> MinI(b, w - R.v[s]) - a + 1
              [] R.k[s] = -1 -> b - MaxI(a, R.v[s] - w) + 1)
Cap == 100000
(* the same for the positions p..q, cut at Cap for every run *)
CountLe(R, p, q, w) ==
    FoldLeft(LAMBDA c, s : c + MinI(Cap, RunLe(R, s, IF s = p[1] THEN p[2] ELSE 0, IF s = q[1] THEN q[2] ELSE R.len[s] - 1, w)),
             0, [i \in 1..(q[1] - p[1] + 1) |-> p[1] + i - 1])
BeforeP(R, p, q) == Val(R, p) < Val(R, q) \/ (Val(R, p) = Val(R, q) /\ PLt(p, q))
(* how many positions of x..y come before m or are m: fewer than Cap        *)
UpTo(R, x, y, m) == LET w == Val(R, m) IN CountLe(R, x, y, w - 1) + CountLe(R, x, m, w) - CountLe(R, x, m, w - 1)
(* ps are the first Len(ps) < Cap positions of x..y *)
IsTopP(R, x, y, ps) ==
    /\ \A i \in 1..Len(ps) : IsBitPos(R, ps[i]) /\ PLe(x, ps[i]) /\ PLe(ps[i], y)
    /\ \A i \in 2..Len(ps) : BeforeP(R, ps[i - 1], ps[i])
    /\ ps # <<>> => UpTo(R, x, y, ps[Len(ps)]) = Len(ps)
=============================================================================
