------------------------------ MODULE Cursors ------------------------------
(* Meaning of the sequential bit reader and of the one-enumerator.          *)
(* A reader is its position p: everything before p has been read.           *)
(* A one-enumerator has a reported position pos and a place: the ones it    *)
(* still has to deliver are those at or after place (place = pos + 1 right  *)
(* after next() delivered the one at pos, else place = pos).                *)
EXTENDS Bits

(* r(i): number of ones before i, a table justified beforehand *)
ReadNextOk(n, p)     == p < n
ReadTakeOk(n, p, k)  == p + k <= n /\ k >= 0 /\ k <= 64
(* z is the number of zeros before the next one at or after p *)
ZerosTo(b, r(_), p, z) ==
    /\ z >= 0 /\ p + z < Len(b)
    /\ At(b, p + z) = 1 /\ r(p + z) = r(p)
HasOneFrom(b, r(_), p) == p <= Len(b) /\ r(Len(b)) > r(p)

(* q is the k-th (from 0) one at or after place *)
KthOne(b, r(_), place, k, q) ==
    /\ q >= place /\ q < Len(b)
    /\ At(b, q) = 1 /\ r(q) - r(place) = k
KthZero(b, r(_), place, k, q) ==
    /\ q >= place /\ q < Len(b)
    /\ At(b, q) = 0 /\ (q - r(q)) - (place - r(place)) = k
OnesFrom(b, r(_), place)  == r(Len(b)) - r(place)
ZerosFrom(b, r(_), place) == (Len(b) - r(Len(b))) - (place - r(place))
=============================================================================
