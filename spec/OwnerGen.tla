----------------------------- MODULE OwnerGen -----------------------------
(* Histories of Owner as calls for the driver.                              *)
EXTENDS Owner, TLC
CONSTANTS Steps
VARIABLES hist, steps
Pick(S) == RandomElement(S)
W(o, a, b) == o \o " " \o ToString(a) \o " " \o ToString(b) \o ";"
Init == OInit([r \in Reg |-> 1]) /\ hist = "" /\ steps = 0
Next ==
    /\ steps < Steps /\ steps' = steps + 1
    /\ \E k \in {Pick(0..13)}, v \in {Pick(Vec)}, a \in {Pick(Mv)}, b \in {Pick(Mv)}, c \in {Pick(Con \cup {0})}, r \in {Pick(Reg)} :
       CASE k \in {0, 1} \/ (vec[v] = 0 /\ k < 5) -> Fill(v, c) /\ hist' = hist \o W("fill", v, c)
         [] k \in {2, 3} -> Steal(a, v) /\ hist' = hist \o W("steal", a, v)
         [] k = 4 -> Assign(a, v) /\ hist' = hist \o W("assign", a, v)
         [] k = 5 -> Assign(a, v) /\ hist' = hist \o W("make", a, v)
         [] k = 6 /\ a # b -> Copy(a, b) /\ hist' = hist \o W("copy", a, b)
         [] k \in {7, 8} -> Swap(a, b) /\ hist' = hist \o W("swap", a, b)
         [] k = 9 -> Clear(a) /\ hist' = hist \o W("clear", a, 0)
         [] k = 10 -> Clear(a) /\ hist' = hist \o W("destroy", a, 0)
         [] OTHER -> MapOver(a, r) /\ hist' = hist \o W("map", a, r)
Emit == steps # Steps \/ PrintT("GEN " \o hist)
=============================================================================
