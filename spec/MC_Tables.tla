----------------------------- MODULE MC_Tables -----------------------------
(* Exhaustive check that the local table conditions of Tables accept the    *)
(* definitional tables of Bits and nothing else.                            *)
(* State: a bit vector and a candidate table, grown entry by entry, with    *)
(* entries drawn from a range that includes wrong and out-of-range values.  *)
EXTENDS Tables
CONSTANTS N
VARIABLES b, t
vars == <<b, t>>
Vals == {NA, -1} \cup 0..(N + 1)
Init == b \in UpTo(N) /\ t = <<>>
Next == /\ Len(t) < Len(b) + 1
        /\ \E v \in Vals : t' = Append(t, v)
        /\ UNCHANGED b
Spec == Init /\ [][Next]_vars

DefRank(v)   == [i \in 1..(Len(b) + 1) |-> Rank(b, v, i - 1)]
DefSel(v)    == [k \in 1..Count(b, v) |-> Select(b, v, k - 1)]
DefPred(v)   == [i \in 1..Len(b) |-> IF HasPred(b, v, i - 1) THEN Pred(b, v, i - 1) ELSE NA]
DefSucc(v)   == [i \in 1..Len(b) |-> IF HasSucc(b, v, i - 1) THEN Succ(b, v, i - 1) ELSE NA]
DefExcess    == [i \in 1..(Len(b) + 1) |-> Excess(b, i - 1)]
DefUp        == [i \in 1..Len(b) |-> IF At(b, i - 1) = 0 THEN FindOpen(b, i - 1)
                 ELSE IF HasEnclose(b, i - 1) THEN Enclose(b, i - 1) ELSE NA]
DefClose     == [i \in 1..Len(b) |-> IF At(b, i - 1) = 1 THEN FindClose(b, i - 1) ELSE NA]

Exact ==
    /\ RankTable(b, t)  <=> t = DefRank(1)
    /\ Rank0Table(b, t) <=> t = DefRank(0)
    /\ \A v \in Bit : /\ SelectTable(b, v, Count(b, v), t) <=> t = DefSel(v)
                      /\ PredTable(b, v, t) <=> t = DefPred(v)
                      /\ SuccTable(b, v, t) <=> t = DefSucc(v)
    /\ ExcessTable(b, t) <=> t = DefExcess
    /\ Balanced(b) =>
         /\ CloseTable(b, DefUp, t) <=> t = DefClose
UpExact == Balanced(b) => (UpTable(b, t) <=> t = DefUp)
RmqExact ==  \* any answer list m for fixed left (right) end against the definition
    (Balanced(b) /\ Len(t) > 0 /\ Len(t) <= Len(b) + 1) =>
      LET val(i) == Excess(b, i)
          n  == Len(b)
          x  == n + 1 - Len(t)
          ys == [k \in 1..Len(t) |-> x + k - 1]
          xs == [k \in 1..Len(t) |-> Len(t) - k]
          y  == Len(t) - 1
          inr == \A k \in 1..Len(t) : t[k] \in 0..n
      IN  inr =>
          /\ LeftBest(val, x, ys, t) <=> \A k \in 1..Len(t) : t[k] = ExcessRmq(b, x, ys[k])
          /\ RightBest(val, y, xs, t) <=> \A k \in 1..Len(t) : t[k] = ExcessRmq(b, xs[k], y)
          /\ \A k \in 1..Len(t) : BestOf(val, x, ys[k], t[k]) <=> t[k] = ExcessRmq(b, x, ys[k])
=============================================================================
