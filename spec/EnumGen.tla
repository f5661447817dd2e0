----------------------------- MODULE EnumGen -----------------------------
(* Histories of three forward enumerators over two stored lists: open at an *)
(* index, take k, skip k, copy, and reads by index in between.              *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Steps
VARIABLES hist, steps, n
Pick(S) == RandomElement(S)
Init == /\ steps = 0
        /\ \E m \in {<<Pick({1, 2, 3, 5, 20, 63, 64, 65, 130, 300}), Pick({1, 2, 7, 64, 65, 200})>>} :
             /\ n = m
             /\ hist = "vals " \o ToString(m[1]) \o " " \o ToString(m[2]) \o " " \o ToString(Pick(0..99)) \o ";"
Next ==
    /\ steps < Steps /\ steps' = steps + 1 /\ UNCHANGED n
    /\ \E c \in {Pick(1..3)}, o \in {Pick(1..3)}, k \in {Pick(0..9)}, w \in {Pick(1..2)}, x \in {Pick(0..9999)},
          t \in {Pick({0, 1, 1, 1, 2, 3, 5, 17, 64, 100})} :
       hist' = hist \o
         (CASE k \in {0, 1} -> "open " \o ToString(c) \o " " \o ToString(w) \o " " \o ToString(x % n[w])
            [] k = 2 -> "cp " \o ToString(c) \o " " \o ToString(o) \o " 0"
            [] k = 3 -> "rd 0 " \o ToString(w) \o " " \o ToString(x % n[w])
            [] k \in {4, 5} -> "skip " \o ToString(c) \o " " \o ToString(t) \o " 0"
            [] OTHER -> "nx " \o ToString(c) \o " " \o ToString(t) \o " 0") \o ";"
Emit == steps # Steps \/ PrintT("GEN " \o hist)
=============================================================================
