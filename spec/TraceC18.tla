----------------------------- MODULE TraceC18 -----------------------------
(* The merged record of all build variants, as a behaviour of Variants.     *)
EXTENDS TraceBase
VARIABLES answers, image
VV == INSTANCE Variants
Init == l = 1 /\ VV!VInit
Img(e) == <<e.oImg, e.oLen>>
Next ==
    \/ Neutral /\ answers' = <<>> /\ image' = <<>>
    \/ /\ More /\ Adv
       /\ LET e == Ev IN
          CASE e.e \in {"base", "var"} ->
                 /\ ((/\ Chk("same answers in every variant", VV!Agrees(answers, e.c, e.oAns))
                      /\ Chk("same image in every variant", VV!Agrees(image, e.c, Img(e)))
                      /\ Chk("bytes written", e.oRet = e.oLen)) = TRUE)
                 /\ VV!Wrote(e.c, e.oAns, Img(e))
            [] e.e = "read" ->
                 /\ ((/\ Chk("answers of a mapped image", e.c \in DOMAIN answers /\ answers[e.c] = e.oAns)
                      /\ Chk("image frozen again", image[e.c] = Img(e))
                      /\ Chk("bytes mapped", e.oRet = image[e.c][2])) = TRUE)
                 /\ VV!Read(e.c, e.oAns, Img(e))
            [] OTHER -> FALSE
=============================================================================
