----------------------------- MODULE TraceC14 -----------------------------
(* Histories of building, freezing, mapping, swapping and destroying, as    *)
(* behaviours of Store.  Answers (oAns, a digest of all answers, and oA the *)
(* first few in full) and images (oImg, a digest of the bytes) are functions*)
(* of content and of content and flags.                                     *)
(* "vast": a structure of billions of values (BigValues) frozen, mapped and *)
(* swapped into another: each time it is asked the same.                    *)
EXTENDS TraceBase, BigValues
VARIABLES obj, img, ans, bytes
ST == INSTANCE Store WITH Obj <- 1..3, Img <- 1..3, Con <- 1..3, Flg <- 0..2000000000
NONE == <<>>
Fresh == /\ obj' = [o \in 1..3 |-> 0] /\ img' = [f \in 1..3 |-> <<-1, 0>>]
Same(o) == ans[obj[o]]
Init == /\ l = 1 /\ obj = [o \in 1..3 |-> 0] /\ img = [f \in 1..3 |-> <<-1, 0>>] /\ ans = [c \in 1..3 |-> NONE] /\ bytes = <<>>
Key(c, g) == <<c, g>>
Learn(k, v) == IF k \in DOMAIN bytes THEN bytes ELSE (k :> v) @@ bytes
(* what freeze returns, the length of the image, the length of what the object would need *)
JudgeFreeze(e) ==
    LET k == Key(obj[e.o], e.g) IN
    /\ Chk("freeze returns the number of bytes written", e.oRet = e.oLen)
    /\ Chk("image is a function of content and flags", k \in DOMAIN bytes => bytes[k] = <<e.oImg, e.oLen>>)
    /\ Chk("freezing leaves the object as it was", obj[e.o] # 0 => e.oAns = ans[obj[e.o]])
JudgeMap(e) ==
    LET k == Key(img[e.f][1], img[e.f][2]) IN
    /\ Chk("map returns the number of bytes of the image", e.oRet = bytes[k][2])
JudgeVast(e) ==
    /\ Chk("question", IsSparse(e.n, e.ix, e.vx))
    /\ LET x == [k \in 1..Len(e.q) |-> At(e.ix, e.vx, e.q[k])] IN
       /\ Chk("size as built", e.oN = e.n) /\ Chk("answers as built", e.oV = x)
       /\ Chk("freeze returns the number of bytes written", e.oRet = e.oLen)
       /\ Chk("map returns the number of bytes of the image", e.oMap = e.oLen)
       /\ Chk("size as mapped", e.oN2 = e.n) /\ Chk("answers as mapped", e.oV2 = x)
       /\ Chk("size after the swap", e.oN3 = e.n) /\ Chk("answers after the swap", e.oV3 = x)
Next ==
    \/ Neutral /\ Fresh /\ ans' = [c \in 1..3 |-> NONE] /\ bytes' = <<>>
    \/ /\ More /\ Adv
       /\ LET e == Ev IN
          CASE e.e = "build" ->
                 /\ (Chk("same content, same answers", ans[e.c] # NONE => e.oAns = ans[e.c]) = TRUE)
                 /\ ST!Build(e.o, e.c) /\ ans' = [ans EXCEPT ![e.c] = e.oAns] /\ UNCHANGED bytes
            [] e.e = "freeze" ->
                 /\ (JudgeFreeze(e) = TRUE)
                 /\ ST!Freeze(e.o, e.f, e.g) /\ UNCHANGED ans
                 /\ bytes' = Learn(Key(obj[e.o], e.g), <<e.oImg, e.oLen>>)
            [] e.e = "map" -> (JudgeMap(e) = TRUE) /\ ST!MapIn(e.o, e.f) /\ UNCHANGED <<ans, bytes>>
            [] e.e = "swap" -> ST!Exchange(e.o, e.p) /\ UNCHANGED <<ans, bytes>>
            [] e.e = "destroy" -> ST!Destroy(e.o) /\ UNCHANGED <<ans, bytes>>
            [] e.e = "ask" -> /\ (Chk("answers", e.oAns = ans[obj[e.o]]) = TRUE) /\ UNCHANGED <<obj, img, ans, bytes>>
            (* a default-constructed object has no answers to give *)
            [] e.e = "ask0" -> /\ (Chk("empty", obj[e.o] = 0) = TRUE) /\ UNCHANGED <<obj, img, ans, bytes>>
            [] e.e = "look" -> /\ (Chk("image unchanged", <<e.oImg, e.oLen>> = bytes[Key(img[e.f][1], img[e.f][2])]) = TRUE)
                               /\ UNCHANGED <<obj, img, ans, bytes>>
            [] e.e = "vast" -> (JudgeVast(e) = TRUE) /\ UNCHANGED <<obj, img, ans, bytes>>
            [] OTHER -> FALSE
=============================================================================
