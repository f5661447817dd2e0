----------------------------- MODULE TopKGen -----------------------------
(* Histories of three enumerators over two stored sequences.                *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Steps
VARIABLES hist, steps, n
Pick(S) == RandomElement(S)
Init == /\ steps = 0
        /\ \E m \in {<<Pick({1, 2, 3, 5, 8, 13, 40}), Pick({1, 2, 7, 9, 30, 100})>>} :
             /\ n = m
             /\ hist = "vals " \o ToString(m[1]) \o " " \o ToString(m[2]) \o " " \o ToString(Pick(0..13)) \o " " \o ToString(Pick(0..8)) \o ";"
Next ==
    /\ steps < Steps /\ steps' = steps + 1 /\ UNCHANGED n
    /\ \E c \in {Pick(1..3)}, o \in {Pick(1..3)}, k \in {Pick(0..11)}, w \in {Pick(1..2)}, x \in {Pick(0..9999)}, y \in {Pick(0..9999)} :
       LET p == x % n[w]
           q == y % n[w]
           a == IF p < q THEN p ELSE q
           b == IF p < q THEN q ELSE p
       IN  hist' = hist \o
             (CASE k \in {0, 1} -> "get " \o ToString(c) \o " " \o ToString(w) \o " " \o ToString(a) \o " " \o ToString(b)
                [] k = 2 -> "cp " \o ToString(c) \o " " \o ToString(o) \o " 0 0"
                [] k = 3 -> "sw " \o ToString(c) \o " " \o ToString(o) \o " 0 0"
                [] k = 4 /\ (x % 3) = 0 -> "clr " \o ToString(c) \o " 0 0 0"
                [] k = 5 -> "top " \o ToString(y % 12) \o " " \o ToString(w) \o " " \o ToString(a) \o " " \o ToString(b)
                [] OTHER -> "nxt " \o ToString(c) \o " 0 0 0") \o ";"
Emit == steps # Steps \/ PrintT("GEN " \o hist)
=============================================================================
