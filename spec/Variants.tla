----------------------------- MODULE Variants -----------------------------
(* Programs built from the same sources in several variants.  Each builds  *)
(* objects from contents, answers, freezes, and maps images that any       *)
(* variant wrote.  The state of the world is the content behind an image;  *)
(* the variant that wrote it is not part of it: answers and images are     *)
(* functions of content alone.                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES answers, image        \* partial functions: content -> digest, learnt on first use
VInit == answers = <<>> /\ image = <<>>
Agrees(f, c, v) == c \in DOMAIN f => f[c] = v
Learnt(f, c, v) == IF c \in DOMAIN f THEN f ELSE (c :> v) @@ f
(* a variant built content c, answered a, and froze it as i *)
Wrote(c, a, i) == /\ Agrees(answers, c, a) /\ Agrees(image, c, i)
                  /\ answers' = Learnt(answers, c, a) /\ image' = Learnt(image, c, i)
(* a variant mapped an image of content c and answered a, and froze it again as i *)
Read(c, a, i) == /\ c \in DOMAIN answers /\ answers[c] = a /\ image[c] = i /\ UNCHANGED <<answers, image>>
=============================================================================
