----------------------------- MODULE CodesImpl -----------------------------
(* The integer codes as the library computes them, over W-bit words and     *)
(* groups of G bits: appending and decoding one group per step in any       *)
(* concatenation of codes, the signed mapping in two's complement (where a  *)
(* step outside the signed range has no meaning), ceiling division.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS W, G, MaxCodes, Bug
M == 2 ^ W
Half == 2 ^ (W - 1)
Ceil(a, d) == (a + d - 1) \div d
RECURSIVE Msb(_)
Msb(a) == IF a <= 1 THEN 0 ELSE 1 + Msb(a \div 2)
VARIABLES vals, out, todo, b, offs, dpos, dval, dk
(* vals: values appended; out: bytes; todo: value being appended or -1; b: groups left; offs: offset of each code
   dpos, dval, dk: decoding code dk (0: not decoding) *)
vars == <<vals, out, todo, b, offs, dpos, dval, dk>>
Init == vals = <<>> /\ out = <<>> /\ todo = -1 /\ b = 0 /\ offs = <<>> /\ dpos = 0 /\ dval = 0 /\ dk = 0
Size(v) == Ceil((IF v = 0 THEN 0 ELSE Msb(v)) + (IF Bug = "size" THEN 0 ELSE 1), G)
UD == UNCHANGED <<dpos, dval, dk>>
Begin(v) == /\ todo = -1 /\ dk = 0 /\ Len(vals) < MaxCodes
            /\ todo' = v /\ b' = Size(v) /\ offs' = Append(offs, Len(out)) /\ UNCHANGED <<vals, out>> /\ UD
Group == /\ todo # -1 /\ b > 0 /\ b' = b - 1
         /\ out' = Append(out, ((todo \div 2 ^ ((b - 1) * G)) % 2 ^ G) + (IF b - 1 > 0 THEN 2 ^ G ELSE 0))
         /\ UNCHANGED <<vals, todo, offs>> /\ UD
Done == todo # -1 /\ b = 0 /\ vals' = Append(vals, todo) /\ todo' = -1 /\ UNCHANGED <<out, b, offs>> /\ UD
(* decoding any of the codes *)
Decode(k) == todo = -1 /\ dk = 0 /\ k <= Len(vals) /\ dk' = k /\ dpos' = offs[k] /\ dval' = 0 /\ UNCHANGED <<vals, out, todo, b, offs>>
Byte == IF Assert(dpos < Len(out), "reading past the end") THEN out[dpos + 1] ELSE 0
Take == /\ dk > 0 /\ (IF dpos = offs[dk] THEN TRUE ELSE out[dpos] >= 2 ^ G)
        /\ dval' = (((dval * 2 ^ G) % M) + (IF Bug = "mask" /\ Byte >= 2 ^ G THEN 0 ELSE Byte % 2 ^ G)) % M
        /\ dpos' = dpos + 1 /\ UNCHANGED <<vals, out, todo, b, offs, dk>>
Decoded == dk > 0 /\ dpos > offs[dk] /\ out[dpos] < 2 ^ G
Stop == Decoded /\ dk' = 0 /\ dpos' = 0 /\ dval' = 0 /\ UNCHANGED <<vals, out, todo, b, offs>>
Next == (\E v \in 0..(M - 1) : Begin(v)) \/ Group \/ Done \/ (\E k \in 1..MaxCodes : Decode(k)) \/ Take \/ Stop
Spec == Init /\ [][Next]_vars

(* the definition: minimal number of groups, most significant first *)
NGroups(v) == CHOOSE n \in 1..W : v < 2 ^ (n * G) /\ (n > 1 => v >= 2 ^ ((n - 1) * G))
Code(v) == [i \in 1..NGroups(v) |-> ((v \div 2 ^ ((NGroups(v) - i) * G)) % 2 ^ G) + (IF i < NGroups(v) THEN 2 ^ G ELSE 0)]
RECURSIVE All(_)
All(s) == IF s = <<>> THEN <<>> ELSE Code(Head(s)) \o All(Tail(s))
CodesExact == todo = -1 => out = All(vals)
DecodeExact == Decoded => dval = vals[dk] /\ dpos - offs[dk] = NGroups(vals[dk])

(* the signed mapping; a signed value outside its range is an error, an unsigned one wraps *)
S(a) == IF Assert(a >= -Half /\ a < Half, "signed overflow") THEN a ELSE 0
U(a) == a % M
Int2Nat(a) == IF a < 0 THEN IF Bug = "int_min" THEN U(2 * U(S(-a)) - 1) ELSE U(2 * U(S(-S(a + 1))) + 1) ELSE U(2 * U(a))
Nat2Int(n) == IF n % 2 = 1 THEN IF Bug = "nat_max" THEN S(-S(U(n + 1) \div 2)) ELSE S(S(-S(n \div 2)) - 1) ELSE S(n \div 2)
Zig(a) == IF a >= 0 THEN 2 * a ELSE -2 * a - 1
SignedExact == (vals = <<>> /\ todo = -1) =>
    /\ \A a \in (-Half)..(Half - 1) : Int2Nat(a) = Zig(a) /\ Nat2Int(Zig(a)) = a
    /\ \A n \in 0..(M - 1) : Int2Nat(Nat2Int(n)) = n
CeilImpl(a, d) == U(U(a + d) - 1) \div d
CeilExact == (vals = <<>> /\ todo = -1) =>
    \A a \in 0..(M - 1) : \A d \in 1..(M - 1) : (a + d - 1 < M \/ Bug = "ceil_any") =>
        LET q == CeilImpl(a, d) IN q * d >= a /\ (q = 0 \/ (q - 1) * d < a)
=============================================================================
