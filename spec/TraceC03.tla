----------------------------- MODULE TraceC03 -----------------------------
(* Histories of cursors: readers 1,2 and one-enumerators 3,4 on one vector. *)
(* h* lines: the same on vectors of billions of bits given by the positions *)
(* of their rare bit value (SparseBits); pos and place are limbs there.     *)
EXTENDS TraceBase, Cursors, Tables, SparseBits

VARIABLES b, r,        \* the vector and its prefix ranks
          pos, place,  \* per cursor
          S            \* the huge vector

R(i) == r[i + 1]
Set(c, p, q) == /\ (Chk("position after " \o Ev.e, Ev.oPos = p) = TRUE)
                /\ pos' = [pos EXCEPT ![c] = p]
                /\ place' = [place EXCEPT ![c] = q]
                /\ UNCHANGED <<b, r, S>> /\ Adv
Zero4 == <<0, 0, 0, 0>>
Zero4L == <<L0, L0, L0, L0>>
One == OfInt(1)

Init == l = 1 /\ b = <<>> /\ r = <<0>> /\ pos = Zero4 /\ place = Zero4 /\ S = <<>>
Next ==
    \/ Neutral /\ UNCHANGED <<b, r, pos, place, S>>
    \/ /\ More
       /\ LET e == Ev
              c == e.c
              p == place[c]
          IN
          CASE e.e = "vec" -> /\ (Chk("prefix ranks", RankTable(e.b, e.r)) = TRUE)
                              /\ b' = e.b /\ r' = e.r /\ pos' = Zero4 /\ place' = Zero4 /\ Adv /\ UNCHANGED S
            [] e.e = "at" -> e.p <= Len(b) /\ Set(c, e.p, e.p)
            [] e.e = "cp" -> Set(c, pos[e.f], place[e.f])
            [] e.e = "next" -> /\ ReadNextOk(Len(b), p)
                               /\ (Chk("next", e.oV = At(b, p)) = TRUE) /\ Set(c, p + 1, p + 1)
            [] e.e = "take" -> /\ ReadTakeOk(Len(b), p, e.k)
                               /\ (Chk("take", e.oV = FieldWord(b, p, e.k)) = TRUE) /\ Set(c, p + e.k, p + e.k)
            [] e.e = "skz" -> /\ HasOneFrom(b, R, p)
                              /\ (Chk("skip_zeros", ZerosTo(b, R, p, e.oV)) = TRUE)
                              /\ Set(c, p + e.oV + 1, p + e.oV + 1)
            [] e.e = "unext" -> /\ (Chk("next one", KthOne(b, R, p, 0, e.oV)) = TRUE)
                                /\ Set(c, e.oV, e.oV + 1)
            [] e.e = "skip" -> /\ e.k < OnesFrom(b, R, p)
                               /\ (Chk("skip", KthOne(b, R, p, e.k, e.oPos)) = TRUE)
                               /\ Set(c, e.oPos, e.oPos)
            [] e.e = "peek" -> /\ e.k < OnesFrom(b, R, p)
                               /\ (Chk("skip_no_move", KthOne(b, R, p, e.k, e.oV)) = TRUE)
                               /\ Set(c, pos[c], p)
            [] e.e = "skip0" -> /\ e.k < ZerosFrom(b, R, p)
                                /\ (Chk("skip0", KthZero(b, R, p, e.k, e.oPos)) = TRUE)
                                /\ Set(c, e.oPos, e.oPos)
            [] e.e = "hvec" -> /\ (Chk("positions", IsSparse(e)) = TRUE)
                               /\ S' = [n |-> e.n, v |-> e.v, p |-> e.p] /\ pos' = Zero4L /\ place' = Zero4L
                               /\ Adv /\ UNCHANGED <<b, r>>
            [] e.e = "hat" -> LLe(e.p, S.n) /\ Set(c, e.p, e.p)
            [] e.e = "hnext" -> /\ (Chk("next", BitIs(S, p, e.w, e.oV)) = TRUE) /\ Set(c, LAdd(p, One), LAdd(p, One))
            [] e.e = "htake" -> /\ LLe(LAdd(p, OfInt(e.k)), S.n)
                                /\ (Chk("take", FieldIs(S, p, e.w, e.k, e.oV)) = TRUE)
                                /\ Set(c, LAdd(p, OfInt(e.k)), LAdd(p, OfInt(e.k)))
            [] e.e = "hskz" -> LET q == LAdd(p, e.oV) IN
                               /\ (Chk("skip_zeros", KthIs(S, 1, p, e.w, L0, q, e.wc)) = TRUE)
                               /\ Set(c, LAdd(q, One), LAdd(q, One))
            [] e.e = "hunext" -> /\ (Chk("next one", KthIs(S, 1, p, e.w, L0, e.oV, e.wc)) = TRUE)
                                 /\ Set(c, e.oV, LAdd(e.oV, One))
            [] e.e = "hskip" -> /\ (Chk("skip", KthIs(S, 1, p, e.w, e.k, e.oPos, e.wc)) = TRUE)
                                /\ Set(c, e.oPos, e.oPos)
            [] e.e = "hpeek" -> /\ (Chk("skip_no_move", KthIs(S, 1, p, e.w, e.k, e.oV, e.wc)) = TRUE)
                                /\ Set(c, pos[c], p)
            [] e.e = "hskip0" -> /\ (Chk("skip0", KthIs(S, 0, p, e.w, e.k, e.oPos, e.wc)) = TRUE)
                                 /\ Set(c, e.oPos, e.oPos)
            [] OTHER -> FALSE
=============================================================================
