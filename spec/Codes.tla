------------------------------- MODULE Codes -------------------------------
(* Integer codes, on the bits of 64-bit words.                              *)
EXTENDS Words
(* --- variable-byte: 7-bit groups, most significant first, minimal, with   *)
(* the top bit of a byte set when another byte follows                      *)
BitAt(b, j) == IF j < 64 THEN b[j] ELSE 0
Group(b, g) == BitAt(b, 7*g) + 2 * BitAt(b, 7*g+1) + 4 * BitAt(b, 7*g+2) + 8 * BitAt(b, 7*g+3)
               + 16 * BitAt(b, 7*g+4) + 32 * BitAt(b, 7*g+5) + 64 * BitAt(b, 7*g+6)
NGroups(b) == LET nz == {g \in 0..9 : Group(b, g) # 0}
              IN  IF nz = {} THEN 1 ELSE 1 + CHOOSE g \in nz : \A h \in nz : h <= g
Encode(w) == LET b == BitsOf(w)
                 n == NGroups(b)
             IN  [i \in 1..n |-> Group(b, n - i) + (IF i < n THEN 128 ELSE 0)]
(* --- signed <-> unsigned: 0, -1, 1, -2, ... <-> 0, 1, 2, 3, ...  A signed *)
(* word is its two's complement bits                                        *)
NatOf(w) == LET b == BitsOf(w)
                s == b[63]
                f(j) == IF j = 0 THEN s ELSE (IF s = 0 THEN b[j - 1] ELSE 1 - b[j - 1])
            IN  WordOf(f)
IntOf(w) == LET b == BitsOf(w)
                s == b[0]
                f(j) == IF j = 63 THEN s ELSE (IF s = 0 THEN b[j + 1] ELSE 1 - b[j + 1])
            IN  WordOf(f)
(* --- ceiling division, on five digits of 15 bits, least significant first *)
B15 == 32768
(* <<quotient, remainder>> by d < 2^15 *)
DivSmall(n, d) ==
    LET r4 == n[5]                        q5 == r4 \div d
        r3 == (r4 % d) * B15 + n[4]       q4 == r3 \div d
        r2 == (r3 % d) * B15 + n[3]       q3 == r2 \div d
        r1 == (r2 % d) * B15 + n[2]       q2 == r1 \div d
        r0 == (r1 % d) * B15 + n[1]       q1 == r0 \div d
    IN  <<<<q1, q2, q3, q4, q5>>, r0 % d>>
Inc(n) == LET c1 == n[1] + 1
              c2 == n[2] + c1 \div B15
              c3 == n[3] + c2 \div B15
              c4 == n[4] + c3 \div B15
              c5 == n[5] + c4 \div B15
          IN  <<c1 % B15, c2 % B15, c3 % B15, c4 % B15, c5>>
CeilSmall(n, d) == LET q == DivSmall(n, d) IN IF q[2] = 0 THEN q[1] ELSE Inc(q[1])
MulSmall(n, k) == LET c1 == n[1] * k
                      c2 == n[2] * k + c1 \div B15
                      c3 == n[3] * k + c2 \div B15
                      c4 == n[4] * k + c3 \div B15
                      c5 == n[5] * k + c4 \div B15
                  IN  <<c1 % B15, c2 % B15, c3 % B15, c4 % B15, c5>>
DLe(a, b) == \/ a = b
             \/ \E i \in 1..5 : a[i] < b[i] /\ \A j \in (i + 1)..5 : a[j] = b[j]
IsCeil(n, d, q) == /\ q >= 0 /\ q < B15
                   /\ DLe(n, MulSmall(d, q))                           \* q*d >= n
                   /\ (q > 0 => ~ DLe(n, MulSmall(d, q - 1)))          \* (q-1)*d < n
=============================================================================
