---------------------------- MODULE MC_BigImages ----------------------------
(* Exhaustive check that BigImages says of an image what Formats says of    *)
(* the bytes of that image, for every schema.                               *)
EXTENDS BigImages
CONSTANTS MaxN, Cap
VARIABLES k, base, c
Kinds == {"v8", "v16", "v32", "v64", "bv", "rs", "bp", "da1", "d64", "ef", "efl", "efc", "gv", "nv", "ct", "tkv", "tkc", "tkg", "user"}
Ls == Leaves(Schema(k))
Init == k \in Kinds /\ base \in 0..1 /\ c = <<>>
(* a value or count for each leaf; at most Cap of them differ from the base *)
Vals(s) == IF s.t = "p" THEN {0, 1, IF s.w = 1 THEN 200 ELSE 40000} ELSE 0..MaxN
Used == Cardinality({i \in 1..Len(c) : c[i] # base})
Next == /\ Len(c) < Len(Ls) /\ UNCHANGED <<k, base>>
        /\ \E x \in Vals(Ls[Len(c) + 1]) : (x # base => Used < Cap) /\ c' = Append(c, x)
Spec == Init /\ [][Next]_<<k, base, c>>
G == <<8, 0, 258>>                                \* a flags word
Bytes(f(_), w) == [i \in 1..w |-> f(i - 1)]
Img == Bytes(LAMBDA i : LByte(G, i), 8) \o
       FlattenSeq([i \in 1..Len(Ls) |->
           IF Ls[i].t = "p" THEN Bytes(LAMBDA j : ByteOf(c[i], j), Ls[i].w)
           ELSE Bytes(LAMBDA j : ByteOf(c[i], j), 8) \o [j \in 1..(c[i] * Ls[i].w) |-> 0]])
Agrees ==
    Len(c) = Len(Ls) =>
    LET I == Img
        P == Parse(I, Ls)
        L == [i \in 1..Len(c) |-> OfInt(c[i])]
        o == Offsets(Ls, L)
        nz == NonZero(Ls, L, G)
        small == TreeL(Schema(k), L, 1, 0)
        t == Tree(Schema(k), P.n, 1, 0)
    IN  /\ P.end = Len(I) /\ o[Len(o)] = OfInt(P.end)
        /\ \A i \in 1..Len(Ls) : o[i] = OfInt(P.at[i] - IF Ls[i].t = "p" THEN 0 ELSE 8)
        /\ Len(small) = Len(t) /\ \A i \in 1..Len(t) : small[i] = <<t[i][1], OfInt(t[i][2])>>
        /\ [i \in 1..Len(nz) |-> <<nz[i][1][3], nz[i][2]>>] =
           SelectSeq([i \in 1..Len(I) |-> <<i - 1, I[i]>>], LAMBDA x : x[2] # 0)
        /\ \A i \in 1..Len(nz) : nz[i][1][1] = 0 /\ nz[i][1][2] = 0
(* counts with carries *)
ASSUME \A w \in {1, 2, 4, 8}, x \in {0, 1, 7, 100000, 134217727} : MulW(OfInt(x), w) = OfInt(x * w)
ASSUME MulW(<<0, 5, B30 - 1>>, 8) = <<0, 47, B30 - 8>> /\ MulW(<<0, B30 - 1, 1>>, 4) = <<3, B30 - 4, 4>>
=============================================================================
