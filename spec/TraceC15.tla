----------------------------- MODULE TraceC15 -----------------------------
(* Frozen images and size reports.  "img": an object of a kind, its content,*)
(* and its complete image; "def": the same for default-constructed objects. *)
(* "vimg": an object mapped over an image of billions of bytes (BigImages)  *)
(* and frozen again.                                                        *)
EXTENDS TraceBase, BigImages

Body(e, I, P) ==
    LET k == e.kind
        pint == [i \in 1..Len(e.x) |-> e.x[i][3]]
    IN
    CASE k = "v8" -> VecIsL(I, P, 1, 1, e.x)
      [] k = "v16" -> VecIsL(I, P, 1, 2, e.x)
      [] k = "v32" -> VecIsL(I, P, 1, 4, e.x)
      [] k = "v64" -> VecIsL(I, P, 1, 8, e.x)
      [] k = "bv" -> BitsOk(I, P, 1, e.b)
      [] k = "rs" -> RsOk(I, P, 1, e.b, e.r, e.fl)
      [] k = "bp" -> BpOk(I, P, 1, e.b, e.r, e.fl)
      [] k = "da1" -> DaOk(I, P, 1, SelectSeq([i \in 1..Len(e.b) |-> i - 1], LAMBDA j : e.b[j + 1] = 1))
      [] k = "da0" -> DaOk(I, P, 1, SelectSeq([i \in 1..Len(e.b) |-> i - 1], LAMBDA j : e.b[j + 1] = 0))
      [] k = "d64" -> D64Ok(I, P, 1, pint)
      [] k = "ef" -> EfOk(I, P, 1, e.n, e.x, TRUE)
      [] k = "efn" -> EfOk(I, P, 1, e.n, e.x, FALSE)
      [] k = "efl" -> EflOk(I, P, 1, e.x, e.s)
      [] k = "efc" -> EfcOk(I, P, 1, e.x, e.ln)
      [] k = "gv" -> GvOk(I, P, 1, e.x, e.ln)
      [] k = "gb" -> GbOk(I, P, 1, e.x, e.ln)
      [] k = "nv" -> NvOk(I, P, 1, e.x)
      [] k = "ct" -> CtOk(I, P, 1, pint)
      [] k = "tkv" -> VecIsL(I, P, 1, 4, e.x) /\ CtOk(I, P, 2, [i \in 1..Len(pint) |-> - pint[i]])
      [] k = "tkc" -> EfcOk(I, P, 1, e.x, e.ln) /\ CtOk(I, P, 17, [i \in 1..Len(pint) |-> - pint[i]])
      [] k = "tkg" -> GvOk(I, P, 1, e.x, e.ln) /\ CtOk(I, P, 8, [i \in 1..Len(pint) |-> - pint[i]])
      [] k = "user" ->
           /\ PodIsL(I, P, 1, e.n) /\ VecIsL(I, P, 2, 4, e.x)
           /\ EfOk(I, P, 3, OfInt(70000), e.xs, TRUE)
           /\ PodIs(I, P, 17, 1, e.d) /\ RsOk(I, P, 18, e.b, e.r, e.fl)
           /\ VecIsL(I, P, 23, 2, e.xm) /\ GvOk(I, P, 24, e.x, e.ln) /\ PodIs(I, P, 31, 2, e.z)

Sizes(e, s, P) ==
    LET n == Len(e.oB) IN
    /\ Chk("image ends where its fields end", P.end = n)
    /\ Chk("flags word", \A i \in 0..7 : e.oB[i + 1] = LByte(e.g, i))
    /\ Chk("freeze count", e.oF = n)
    /\ Chk("map count", e.oM = n)
    /\ Chk("size_of", e.oS + 8 = n)
    /\ Chk("size tree", e.oT = Tree(s, P.n, 1, 0))
Judge(e) ==
    LET s == Schema(e.kind)
        I == e.oB
        P == Parse(I, Leaves(s))
    IN  /\ Chk("prefix ranks", Len(e.r) = Len(e.b) + 1 /\ e.r[1] = 0 /\ \A i \in 1..Len(e.b) : e.r[i + 1] = e.r[i] + e.b[i])
        /\ Sizes(e, s, P)
        /\ Chk("fields of " \o e.kind, Body(e, I, P))
(* a default-constructed object: every field zero, every vector empty *)
JudgeDef(e) ==
    LET s == Schema(e.kind)
        P == Parse(e.oB, Leaves(s))
    IN  /\ Sizes(e, s, P)
        /\ Chk("all zero", \A i \in 9..Len(e.oB) : e.oB[i] = 0)
JudgeBig(e) ==
    LET s == Schema(e.kind)
        ls == Leaves(s)
        o == Offsets(ls, e.v)
        end == o[Len(o)]
        t == TreeL(s, e.v, 1, 0)
        nz == NonZero(ls, e.v, e.g2)
    IN  /\ Chk("question", Len(e.v) = Len(ls))
        /\ Chk("map count", e.oM = end)
        /\ Chk("freeze count", e.oF = end)
        /\ Chk("size_of", LAdd(e.oS, OfInt(8)) = end)
        /\ Chk("size tree", Len(e.oTd) = Len(t) /\ Len(e.oTs) = Len(t) /\ \A i \in 1..Len(t) : t[i] = <<e.oTd[i], e.oTs[i]>>)
        /\ e.read = 1 => /\ Chk("image length", e.oLen = end)
                         /\ Chk("image bytes", Len(e.oZp) = Len(nz) /\ Len(e.oZb) = Len(nz) /\ \A i \in 1..Len(nz) : nz[i] = <<e.oZp[i], e.oZb[i]>>)
Init == l = 1
Next ==
    \/ Neutral
    \/ More /\ Ev.e = "img" /\ (Judge(Ev) = TRUE) /\ Adv
    \/ More /\ Ev.e = "vimg" /\ (JudgeBig(Ev) = TRUE) /\ Adv
    \/ More /\ Ev.e = "def" /\ (JudgeDef(Ev) = TRUE) /\ Adv
=============================================================================
