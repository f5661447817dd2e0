------------------------------- MODULE Store -------------------------------
(* Objects of one kind and images on disk or in memory.  An object is the   *)
(* content it shows; an image is the content and the flags it was frozen    *)
(* with.  Everything an object answers is a function of its content, and an *)
(* image is a function of content and flags: both functions are unknown to  *)
(* this module and are learnt on first use (C01..C13 and C15 say what they  *)
(* are); here they only have to be functions.                               *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Obj, Img, Con, Flg
EMPTY == 0                      \* content of a default-constructed object
VARIABLES obj, img
TypeOK == obj \in [Obj -> Con \cup {EMPTY}] /\ img \in [Img -> (Con \cup {EMPTY, -1}) \X Flg]
SInit == obj = [o \in Obj |-> EMPTY] /\ img = [f \in Img |-> <<-1, 0>>]
Build(o, c)     == obj' = [obj EXCEPT ![o] = c] /\ UNCHANGED img
Freeze(o, f, g) == img' = [img EXCEPT ![f] = <<obj[o], g>>] /\ UNCHANGED obj
MapIn(o, f)     == img[f][1] # -1 /\ obj' = [obj EXCEPT ![o] = img[f][1]] /\ UNCHANGED img
Exchange(o, p)  == obj' = [obj EXCEPT ![o] = obj[p], ![p] = obj[o]] /\ UNCHANGED img
Destroy(o)      == obj' = [obj EXCEPT ![o] = EMPTY] /\ UNCHANGED img
SNext == \/ \E o \in Obj : (\E c \in Con : Build(o, c)) \/ Destroy(o)
         \/ \E o \in Obj, f \in Img : MapIn(o, f) \/ \E g \in Flg : Freeze(o, f, g)
         \/ \E o, p \in Obj : Exchange(o, p)
=============================================================================
