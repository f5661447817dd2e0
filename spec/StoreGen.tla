----------------------------- MODULE StoreGen -----------------------------
(* Histories of Store, as calls for the driver to replay on every kind.     *)
EXTENDS Store, TLC
CONSTANTS Steps
VARIABLES hist, steps
Pick(S) == RandomElement(S)
W(a, b, c, d) == a \o " " \o ToString(b) \o " " \o ToString(c) \o " " \o ToString(d) \o ";"
Init == SInit /\ hist = "" /\ steps = 0
Next ==
    /\ steps < Steps /\ steps' = steps + 1
    /\ \E k \in {Pick(0..13)}, o \in {Pick(Obj)}, p \in {Pick(Obj)}, f \in {Pick(Img)}, c \in {Pick(Con)}, g \in {Pick(Flg)}, w \in {Pick(0..1)} :
       CASE k \in {0, 1} \/ (k < 6 /\ steps < 2) -> Build(o, c) /\ hist' = hist \o W("build", o, c, Pick(0..7))
         [] k \in {2, 3} -> Freeze(o, f, g) /\ hist' = hist \o W("freeze", o, f, g)
         [] k \in {4, 5} /\ img[f][1] # -1 -> MapIn(o, f) /\ hist' = hist \o W("mapmem", o, f, w)
         [] k = 6 /\ img[f][1] # -1 -> MapIn(o, f) /\ hist' = hist \o W("mapfile", o, f, w)
         [] k \in {7, 8} -> Exchange(o, p) /\ hist' = hist \o W("swap", o, p, 0)
         [] k = 9 -> Destroy(o) /\ hist' = hist \o W("destroy", o, 0, 0)
         [] k = 10 /\ img[f][1] # -1 -> UNCHANGED <<obj, img>> /\ hist' = hist \o W("look", f, 0, 0)
         [] OTHER -> UNCHANGED <<obj, img>> /\ hist' = hist \o W("ask", o, 0, 0)
Emit == steps # Steps \/ PrintT("GEN " \o hist)
=============================================================================
