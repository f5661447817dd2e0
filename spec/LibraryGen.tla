----------------------------- MODULE LibraryGen -----------------------------
(* Histories of Library as calls for the driver.                            *)
EXTENDS Library, TLC
CONSTANTS Steps
VARIABLES hist, steps
Pick(S) == RandomElement(S)
W(o, a, b, c) == o \o " " \o ToString(a) \o " " \o ToString(b) \o " " \o ToString(c) \o ";"
Init == LInit /\ hist = "" /\ steps = 0
Next ==
    /\ steps < Steps /\ steps' = steps + 1
    /\ \E k \in {Pick(0..14)}, o \in {Pick(Obj)}, p \in {Pick(Obj)}, c \in {Pick(Con)}, r \in {Pick(0..7)}, n \in {Pick(1..12)} :
       CASE k \in {0, 1} \/ (k < 12 /\ \A x \in Obj : obj[x] = NOBODY) -> Give(o, c) /\ hist' = hist \o W("build", o, c, r)
         [] k = 2 -> Give(o, c) /\ hist' = hist \o W("map", o, c, r)
         [] k \in {3, 4} -> Exchange(o, p) /\ hist' = hist \o W("swap", o, p, 0)
         [] k = 5 -> Drop(o) /\ hist' = hist \o W("destroy", o, 0, 0)
         [] k \in {6, 7, 8, 9, 10} -> Asked /\ hist' = hist \o W("ask", o, r, n)
         [] OTHER -> Asked /\ hist' = hist \o W("mix", 0, 0, n)
Emit == steps # Steps \/ PrintT("GEN " \o hist)
=============================================================================
