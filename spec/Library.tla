------------------------------ MODULE Library ------------------------------
(* The library as its users see it: objects holding contents, asked by any  *)
(* number of threads.  A content never changes, an object changes content   *)
(* only when it is built, mapped, swapped or destroyed, and asking changes  *)
(* nothing.  The answer to a question is a function of the content asked:   *)
(* Truth, which this module leaves open (C01..C13 say what it is).          *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Obj, Con
VARIABLE obj
NOBODY == 0
LInit == obj = [o \in Obj |-> NOBODY]
LTypeOK == obj \in [Obj -> Con \cup {NOBODY}]
Give(o, c) == obj' = [obj EXCEPT ![o] = c]            \* build, or map an image of c
Exchange(o, p) == obj' = [obj EXCEPT ![o] = obj[p], ![p] = obj[o]]
Drop(o) == obj' = [obj EXCEPT ![o] = NOBODY]
Asked == UNCHANGED obj
LNext == \/ \E o \in Obj : Drop(o) \/ (\E c \in Con : Give(o, c)) \/ (\E p \in Obj : Exchange(o, p))
         \/ Asked
=============================================================================
