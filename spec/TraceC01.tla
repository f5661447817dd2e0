----------------------------- MODULE TraceC01 -----------------------------
(* Histories of two builders: the state is the pair of bit lists.           *)
(* Events with v >= 0 in h: builders of billions of bits, whose state is    *)
(* the length n and the set p of the positions that hold the rare value v.  *)
EXTENDS TraceBase, Builder, SparseBuilder

VARIABLE bl, hb

Upd(x, s) ==                      \* builder x now holds s; its reported size agrees
    /\ (Chk("size after " \o Ev.e, Ev.oN = Len(s)) = TRUE)
    /\ bl' = [bl EXCEPT ![x] = s]
    /\ Adv /\ UNCHANGED hb
HUpd(x, s) ==
    /\ (Chk("size after " \o Ev.e, Ev.oN = s.n) = TRUE)
    /\ hb' = [hb EXCEPT ![x] = s]
    /\ Adv /\ UNCHANGED bl

Tail64(s) ==
    IF Len(s) = 0 THEN <<>> ELSE <<FieldWord(s, ((Len(s) - 1) \div 64) * 64, 64)>>

HugeStep ==
    LET e == Ev
        s == hb[e.x]
    IN  CASE e.e = "hstart" -> Adv /\ hb' = <<SNew(L0, 0, e.v), SNew(L0, 0, e.v)>> /\ UNCHANGED bl
          [] e.e = "hnew"  -> HUpd(e.x, SNew(e.n, e.b, s.v))
          [] e.e = "hpush" -> HUpd(e.x, SAppend(s, <<e.b>>))
          [] e.e = "hset"  -> LLt(e.p, s.n) /\ HUpd(e.x, SSet(s, e.p, <<e.b>>))
          [] e.e = "hsetf" -> LLe(LAdd(e.p, OfInt(Len(e.w))), s.n) /\ HUpd(e.x, SSet(s, e.p, e.w))
          [] e.e = "happ"  -> HUpd(e.x, SAppend(s, e.w))
          [] e.e = "hext"  -> e.b # s.v /\ HUpd(e.x, SExtend(s, e.k))
          [] e.e = "hcat"  -> HUpd(e.x, SCat(s, hb[3 - e.x]))
          [] e.e = "hrev"  -> HUpd(e.x, SReverse(s))
          [] e.e = "hres"  -> HUpd(e.x, s)
          [] e.e = "hswap" -> /\ (Chk("size after swap", e.oN = hb[3 - e.x].n) = TRUE)
                              /\ hb' = <<hb[2], hb[1]>> /\ Adv /\ UNCHANGED bl
          [] e.e = "hfin"  -> /\ (Chk("bits built", SIs(s, e.oP)) = TRUE)
                              /\ (Chk("padding", e.oPad = 0) = TRUE)
                              /\ Adv /\ UNCHANGED <<bl, hb>>
          [] OTHER -> FALSE
HEvents == {"hstart", "hnew", "hpush", "hset", "hsetf", "happ", "hext", "hcat", "hrev", "hres", "hswap", "hfin"}

Init == l = 1 /\ bl = <<<<>>, <<>>>> /\ hb = <<>>
Next ==
    \/ Neutral /\ bl' = <<<<>>, <<>>>> /\ hb' = <<>>
    \/ More /\ Ev.e \in HEvents /\ HugeStep
    \/ /\ More /\ Ev.e \notin HEvents
       /\ LET e == Ev
              s == bl[e.x]
          IN  CASE e.e = "start" -> Adv /\ bl' = <<<<>>, <<>>>> /\ UNCHANGED hb
                [] e.e = "new"   -> Upd(e.x, New(e.n, e.v))
                [] e.e = "push"  -> Upd(e.x, Push(s, e.v))
                [] e.e = "set"   -> SetOk(s, e.p) /\ Upd(e.x, SetBit(s, e.p, e.v))
                [] e.e = "setf"  -> SetFieldOk(s, e.p, Len(e.w)) /\ Upd(e.x, SetField(s, e.p, e.w))
                [] e.e = "app"   -> Upd(e.x, AppendField(s, e.w))
                [] e.e = "zext"  -> Upd(e.x, ZeroExtend(s, e.k))
                [] e.e = "oext"  -> Upd(e.x, OneExtend(s, e.k))
                [] e.e = "cat"   -> Upd(e.x, AppendAll(s, bl[3 - e.x]))
                [] e.e = "rev"   -> Upd(e.x, Reversed(s))
                [] e.e = "res"   -> Upd(e.x, s)
                [] e.e = "swap"  -> /\ (Chk("size after swap", e.oN = Len(bl[3 - e.x])) = TRUE)
                                    /\ bl' = <<bl[2], bl[1]>> /\ Adv /\ UNCHANGED hb
                [] e.e = "fin"   -> /\ (Chk("bits built", e.oB = s) = TRUE)
                                    /\ (Chk("padding", e.oTail = Tail64(s)) = TRUE)
                                    /\ Adv /\ UNCHANGED <<bl, hb>>
                [] OTHER -> FALSE
=============================================================================
