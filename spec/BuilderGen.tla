----------------------------- MODULE BuilderGen -----------------------------
(* Behaviours of two builders at the real word size, by length only: which  *)
(* calls are made, on which builder, with which positions, lengths and      *)
(* pattern numbers.  TLC simulates it; the driver replays each behaviour on *)
(* real builders and records what they become (TraceC01 then decides).      *)
EXTENDS Integers, Sequences, TLC

CONSTANTS Steps, MaxBits

VARIABLES len, hist, steps
vars == <<len, hist, steps>>

Pick(S) == RandomElement(S)
Lens == {0, 1, 2, 7, 8, 31, 32, 33, 62, 63, 64}
Pats == 0..6
Near(n) == LET w == (n \div 64) * 64
           IN  {x \in {0, 1, n - 1, n, w - 1, w, w + 1, w - 64, w - 65, n \div 2} : x >= 0 /\ x <= n}
S3(a, b) == ToString(a) \o " " \o ToString(b)

Do(op, b, n) == /\ hist' = hist \o op \o ToString(b) \o ";"
                /\ len' = [len EXCEPT ![b] = n]
                /\ steps' = steps + 1

Init == len = <<0, 0>> /\ hist = "" /\ steps = 0

(* Pick draws anew at each evaluation, so a drawn value is bound by \E *)
Next ==
    /\ steps < Steps
    /\ \E b \in {Pick({1, 2})}, c \in {Pick(1..15)}, v \in {Pick(0..1)}, p \in {Pick(Pats)},
          L \in {IF Pick(1..3) = 1 THEN Pick(0..64) ELSE Pick(Lens)},
          k \in {Pick({0, 1, 63, 64, 65, 127, 128, Pick(0..300)})} :
       LET n == len[b]
           o == 3 - b
           room == n + 300 < MaxBits
       IN  \E pos \in {IF v = 1 THEN Pick(Near(n)) ELSE Pick(0..n)} :
           CASE c = 1 -> Do("new " \o S3(k, v) \o " ", b, k)
             [] c \in {2, 3} /\ room -> Do("push " \o ToString(v) \o " ", b, n + 1)
             [] c = 4 /\ n > 0 -> Do("set " \o S3(IF pos = n THEN n - 1 ELSE pos, v) \o " ", b, n)
             [] c \in {5, 6} -> Do("setf " \o S3(pos, IF pos + L <= n THEN L ELSE IF n - pos > 64 THEN 64 ELSE n - pos)
                                  \o " " \o ToString(p) \o " ", b, n)
             [] c \in {7, 8, 9} /\ room -> Do("app " \o S3(L, p) \o " ", b, n + L)
             [] c = 10 /\ room -> Do("zext " \o ToString(k) \o " ", b, n + k)
             [] c = 11 /\ room -> Do("oext " \o ToString(k) \o " ", b, n + k)
             [] c = 12 /\ n + len[o] < MaxBits -> Do("cat ", b, n + len[o])
             [] c = 13 -> Do("rev ", b, n)
             [] c = 14 -> Do("res " \o ToString(IF v = 0 THEN 2 * n + 1000 ELSE k) \o " ", b, n)
             [] c = 15 -> /\ hist' = hist \o "swap " \o ToString(b) \o ";"
                          /\ len' = <<len[2], len[1]>> /\ steps' = steps + 1
             [] OTHER -> Do("push " \o ToString(v) \o " ", b, n + 1)

Emit == steps # Steps \/ PrintT("GEN " \o hist)
=============================================================================
