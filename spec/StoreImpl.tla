----------------------------- MODULE StoreImpl -----------------------------
(* Freezing, mapping and measuring as the library's three visitors do it.   *)
(* An object is its leaves in published order: plain fields hold a value,   *)
(* vectors own their elements or point into an image.  The freezing visitor *)
(* writes flags, then every leaf, counting what it writes; the mapping one  *)
(* reads the same leaves behind a cursor and points vectors into the image; *)
(* the sizing one adds up, keeping a tree.  Words are digits of base D, low *)
(* digit first; a count and the flags take NW digits.  It must implement    *)
(* Store, every image must be the published encoding of its content, and    *)
(* all size reports must agree.                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Obj, Img, Flg, Bug
VARIABLES o, im, said
vars == <<o, im, said>>
D == 4
NW == 2
P(w) == [t |-> "p", w |-> w]
V(w) == [t |-> "v", w |-> w]
Leaves == <<P(1), V(2), V(1), P(2)>>         \* a plain field, a vector, a member of a vector and a plain field
Values == <<  <<1, <<5, 9>>, <<>>, 7>>, <<0, <<14>>, <<3, 2, 1>>, 0>> >>
Nothing == <<0, <<>>, <<>>, 0>>
Con == 1..Len(Values)
Of(c) == IF c = 0 THEN Nothing ELSE Values[c]

RECURSIVE Digits(_, _)
Digits(x, w) == IF w = 0 THEN <<>> ELSE <<x % D>> \o Digits(x \div D, w - 1)
RECURSIVE Num(_)
Num(s) == IF s = <<>> THEN 0 ELSE Head(s) + D * Num(Tail(s))
RECURSIVE Pack(_, _)
Pack(xs, w) == IF xs = <<>> THEN <<>> ELSE Digits(Head(xs), w) \o Pack(Tail(xs), w)

(* the definition of an image *)
EncLeaf(d, x) == IF d.t = "p" THEN Digits(x, d.w) ELSE Digits(Len(x), NW) \o Pack(x, d.w)
RECURSIVE EncFrom(_, _)
EncFrom(k, xs) == IF k > Len(Leaves) THEN <<>> ELSE EncLeaf(Leaves[k], xs[k]) \o EncFrom(k + 1, xs)
Encode(c, g) == Digits(g, NW) \o EncFrom(1, Of(c))

(* objects; a vector: [own, f, off, n]: its elements are own when f = 0, else n elements of image f from off on *)
OwnV(xs) == [own |-> xs, f |-> 0, off |-> 0, n |-> Len(xs)]
Built(c) == [k \in 1..Len(Leaves) |-> IF Leaves[k].t = "p" THEN Of(c)[k] ELSE OwnV(Of(c)[k])]
Elems(v, w) == IF v.f = 0 THEN v.own ELSE [i \in 1..v.n |-> Num(SubSeq(im[v.f], v.off + 1 + (i - 1) * w, v.off + i * w))]
Show(x) == [k \in 1..Len(Leaves) |-> IF Leaves[k].t = "p" THEN x[k] ELSE Elems(x[k], Leaves[k].w)]

(* freezing: the file and the running count *)
RECURSIVE FreezeFrom(_, _, _)
FreezeFrom(k, x, s) ==
    IF k > Len(Leaves) THEN s
    ELSE LET d == Leaves[k] IN
         FreezeFrom(k + 1, x,
            IF d.t = "p" THEN [out |-> s.out \o Digits(x[k], d.w), n |-> s.n + d.w]
            ELSE [out |-> s.out \o Digits(x[k].n, NW) \o Pack(Elems(x[k], d.w), d.w),
                  n |-> s.n + NW + (IF Bug = "freeze_count" THEN x[k].n ELSE x[k].n * d.w)])
FreezeImpl(x, g) == FreezeFrom(1, x, [out |-> Digits(g, NW), n |-> NW])
(* mapping: the object and the cursor *)
RECURSIVE MapFrom(_, _, _, _)
MapFrom(k, x, f, cur) ==
    IF k > Len(Leaves) THEN [x |-> x, cur |-> cur]
    ELSE LET d == Leaves[k] IN
         IF d.t = "p" THEN MapFrom(k + 1, [x EXCEPT ![k] = Num(SubSeq(im[f], cur + 1, cur + d.w))], f, cur + d.w)
         ELSE LET n == Num(SubSeq(im[f], cur + 1, cur + NW)) c == cur + NW IN
              MapFrom(k + 1, [x EXCEPT ![k] = [own |-> <<>>, f |-> f, off |-> c, n |-> n]], f,
                      c + (IF Bug = "map_step" THEN n ELSE n * d.w))
MapImpl(x, f) == MapFrom(1, x, f, IF Bug = "map_flags" THEN 0 ELSE NW)
(* sizing *)
RECURSIVE SizeFrom(_, _, _)
SizeFrom(k, j, x) == IF k > j THEN 0 ELSE (IF Leaves[k].t = "p" THEN Leaves[k].w ELSE NW + x[k].n * Leaves[k].w) + SizeFrom(k + 1, j, x)
SizeImpl(x) == SizeFrom(1, Len(Leaves), x)
(* the tree: every structure the difference of the total before and after its members, every vector likewise *)
NodeOf(k, x) == SizeFrom(1, k, x) - SizeFrom(1, k - 1, x)
Inner(x) == SizeFrom(1, 4, x) - SizeFrom(1, 2, x)

Init == o = [i \in Obj |-> Built(0)] /\ im = [f \in Img |-> <<>>] /\ said = TRUE
Used(f) == \E i \in Obj : \E k \in 1..Len(Leaves) : Leaves[k].t = "v" /\ o[i][k].f = f
Build(i, c) == o' = [o EXCEPT ![i] = Built(c)] /\ said' = TRUE /\ UNCHANGED im
Freeze(i, f, g) ==                           \* into a file nobody has mapped
    /\ ~Used(f)
    /\ LET s == FreezeImpl(o[i], IF Bug = "freeze_flags" /\ o[i][2].f # 0 THEN 0 ELSE g)
       IN  im' = [im EXCEPT ![f] = s.out] /\ said' = (s.n = Len(s.out) /\ s.n = SizeImpl(o[i]) + NW /\ Num(SubSeq(s.out, 1, NW)) = g)
    /\ UNCHANGED o
Map(i, f) == /\ im[f] # <<>>
             /\ LET s == MapImpl(o[i], f) IN o' = [o EXCEPT ![i] = s.x] /\ said' = (s.cur = Len(im[f]))
             /\ UNCHANGED im
Swap(i, j) == /\ o' = [o EXCEPT ![i] = IF Bug = "swap_field" THEN [o[j] EXCEPT ![4] = o[i][4]] ELSE o[j],
                                ![j] = IF Bug = "swap_field" THEN [o[i] EXCEPT ![4] = o[j][4]] ELSE o[i]]
              /\ said' = TRUE /\ UNCHANGED im
Next == \/ \E i \in Obj : (\E c \in Con \cup {0} : Build(i, c)) \/ \E f \in Img : Map(i, f) \/ \E g \in Flg : Freeze(i, f, g)
        \/ \E i, j \in Obj : i # j /\ Swap(i, j)
Spec == Init /\ [][Next]_vars

(* refinement of Store; a mapped object is destroyed like any other, its image stays *)
ConOf(xs) == IF \E c \in Con \cup {0} : Of(c) = xs THEN CHOOSE c \in Con \cup {0} : Of(c) = xs ELSE -5
AbsObj == [i \in Obj |-> ConOf(Show(o[i]))]
AbsImg == [f \in Img |-> IF im[f] = <<>> THEN <<-1, 0>>
                         ELSE IF \E c \in Con \cup {0}, g \in Flg : Encode(c, g) = im[f]
                         THEN CHOOSE p \in (Con \cup {0}) \X Flg : Encode(p[1], p[2]) = im[f] ELSE <<-5, 0>>]
ST == INSTANCE Store WITH obj <- AbsObj, img <- AbsImg
Refines == ST!SInit /\ [][ST!SNext]_<<AbsObj, AbsImg>>
Typed == ST!TypeOK
ImageIsEncoding == \A f \in Img : im[f] # <<>> => AbsImg[f][1] # -5
SizesAgree == said
TreeAddsUp == \A i \in Obj : /\ Inner(o[i]) = NodeOf(3, o[i]) + Leaves[4].w
                             /\ SizeImpl(o[i]) = Leaves[1].w + NodeOf(2, o[i]) + Inner(o[i])
=============================================================================
