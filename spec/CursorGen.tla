----------------------------- MODULE CursorGen -----------------------------
(* Call histories over two sequential readers (1,2) and two one-enumerators *)
(* (3,4) on one vector.  A call whose precondition fails at replay time is  *)
(* skipped by the driver.                                                   *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Steps
VARIABLES hist, steps
Pick(S) == RandomElement(S)
Lens == {0, 1, 2, 7, 31, 32, 33, 56, 57, 62, 63, 64, 64, 64}
Init == /\ hist \in {"vec " \o ToString(Pick({64, 65, 127, 128, 129, 190, 192, 200, 256, 320, 500})) \o " " \o ToString(Pick(0..11)) \o ";"}
        /\ steps = 0
Next ==
    /\ steps < Steps /\ steps' = steps + 1
    /\ \E c \in {Pick(1..4)}, k \in {Pick(0..9)}, L \in {IF Pick(1..2) = 1 THEN Pick(Lens) ELSE Pick(0..64)},
          m \in {Pick({0, 0, 1, 2, 3, 5, 17, 40, 63, 64, 65, 100})}, at \in {Pick({0, 1, 63, 64, 65, 126, 127, 128, Pick(0..400)})} :
       hist' = hist \o
         (CASE k = 0 /\ Pick(1..3) = 1 -> "at " \o ToString(at)
            [] k = 1 /\ Pick(1..3) = 1 -> "cp 0"
            [] c \in {1, 2} /\ k \in {0, 1, 2, 3} -> "next 0"
            [] c \in {1, 2} /\ k \in {4, 5, 6} -> "take " \o ToString(L)
            [] c \in {1, 2} -> "skz 0"
            [] k \in {0, 1, 2, 3} -> "next 0"
            [] k \in {4, 5} -> "skip " \o ToString(m)
            [] k \in {6, 7} -> "peek " \o ToString(m)
            [] OTHER -> "skip0 " \o ToString(m))
         \o " " \o ToString(c) \o ";"
Emit == steps # Steps \/ PrintT("GEN " \o hist)
=============================================================================
