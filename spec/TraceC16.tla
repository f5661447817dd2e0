----------------------------- MODULE TraceC16 -----------------------------
(* Ownership histories.  "own": mappable vectors, as behaviours of Owner;   *)
(* "str": whole structures, whose content is known by the digest of their   *)
(* answers.  After every step everything is looked at: what each object     *)
(* shows, the mapped regions, how many large blocks are held, and whether   *)
(* anything was released that was not held.                                 *)
EXTENDS TraceBase
VARIABLES vec, mv, reg, dig, big, rdig
OW == INSTANCE Owner WITH Vec <- 1..2, Mv <- 1..3, Reg <- 1..2, Con <- 1..4
vars == <<vec, mv, reg, dig, big, rdig>>
NOTHING == <<0, "none">>
Reset == /\ vec' = [i \in 1..2 |-> 0] /\ mv' = [i \in 1..3 |-> NOTHING] /\ reg' = <<0, 0>> /\ dig' = <<>> /\ big' = <<>> /\ rdig' = <<>>
Init == l = 1 /\ vec = [i \in 1..2 |-> 0] /\ mv = [i \in 1..3 |-> NOTHING] /\ reg = <<0, 0>> /\ dig = <<>> /\ big = <<>> /\ rdig = <<>>
Step(e) ==
    CASE e.op = "fill" -> OW!Fill(e.a, e.b)
      [] e.op = "steal" -> OW!Steal(e.a, e.b)
      [] e.op \in {"assign", "make"} -> OW!Assign(e.a, e.b)
      [] e.op = "copy" -> OW!Copy(e.a, e.b)
      [] e.op = "swap" -> OW!Swap(e.a, e.b)
      [] e.op \in {"clear", "destroy"} -> OW!Clear(e.a)
      [] e.op = "map" -> OW!MapOver(e.a, e.b)
(* judged in the state after the step *)
IsBig(c) == big[c + 1] = 1
Seen(e, v, m) ==
    /\ Chk("source vectors", e.oV = [i \in 1..2 |-> dig[v[i] + 1]])
    /\ Chk("contents", e.oM = [i \in 1..3 |-> dig[m[i][1] + 1]])
    /\ Chk("storage held", e.oBig = Cardinality({i \in 1..2 : IsBig(v[i])}) + Cardinality({i \in 1..3 : m[i][2] = "own" /\ IsBig(m[i][1])}))
    /\ Chk("released only what was held", e.oBad = 0)
    /\ Chk("mapped memory untouched", e.oG = rdig)
(* structures: content 0 (nothing) has no answers *)
StrStep(e) ==
    CASE e.op = "build" -> mv' = [mv EXCEPT ![e.a] = <<e.b, "own">>]
      [] e.op = "swap" -> mv' = [mv EXCEPT ![e.a] = mv[e.b], ![e.b] = mv[e.a]]
      [] e.op = "map" -> mv' = [mv EXCEPT ![e.a] = <<reg[e.b], "map">>]
      [] e.op = "destroy" -> mv' = [mv EXCEPT ![e.a] = NOTHING]
SeenStr(e, m) ==
    /\ Chk("answers", e.oAns = [i \in 1..3 |-> IF m[i][1] = 0 THEN <<0, 0, 0>> ELSE dig[m[i][1]]])
    /\ Chk("nothing owned, nothing held", (\A i \in 1..3 : m[i][2] # "own") => e.oBig = 0)
    /\ Chk("storage held is never negative", e.oBig >= 0)
    /\ Chk("released only what was held", e.oBad = 0)
    /\ Chk("mapped memory untouched", e.oG = rdig)
Next ==
    \/ Neutral /\ Reset
    \/ /\ More /\ Adv
       /\ LET e == Ev IN
          CASE e.e = "con" -> /\ vec' = [i \in 1..2 |-> 0] /\ mv' = [i \in 1..3 |-> NOTHING] /\ reg' = e.rc /\ dig' = e.d /\ big' = e.big /\ rdig' = e.g
            [] e.e = "scon" -> /\ vec' = vec /\ mv' = [i \in 1..3 |-> NOTHING] /\ reg' = e.rc /\ dig' = e.d /\ big' = <<>> /\ rdig' = e.g
            [] e.e = "own" -> Step(e) /\ UNCHANGED <<dig, big, rdig>> /\ (Seen(e, vec', mv') = TRUE)
            [] e.e = "str" -> StrStep(e) /\ UNCHANGED <<vec, reg, dig, big, rdig>> /\ (SeenStr(e, mv') = TRUE)
            [] e.e = "fin" -> /\ ((Chk("all storage released at the end", e.oLeft = 0) /\ Chk("released only what was held", e.oBad = 0)
                                   /\ Chk("mapped memory untouched", e.oG = rdig)) = TRUE)
                              /\ UNCHANGED vars
            [] OTHER -> FALSE
=============================================================================
