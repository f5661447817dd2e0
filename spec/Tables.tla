------------------------------ MODULE Tables ------------------------------
(* Characterisations of complete answer tables by local conditions.         *)
(* A recorded table of answers (one entry per argument) satisfies XTable    *)
(* exactly when it is the table of the definition in Bits; MC_Tables checks *)
(* that equivalence exhaustively for small vectors and arbitrary tables.    *)
(* They let TLC judge tables of several hundred thousand answers in linear  *)
(* time.  All tables are sequences: entry i+1 answers argument i.           *)
EXTENDS Bits

NA == -2        \* "the call was outside its precondition and was not made"

Nat0(x, hi) == x >= 0 /\ x <= hi

(* rank of ones before every i in 0..Len(b) *)
RankTable(b, t) ==
    /\ Len(t) = Len(b) + 1
    /\ t[1] = 0
    /\ \A i \in 1..Len(b) : t[i + 1] = t[i] + b[i]
Rank0Table(b, t) ==
    /\ Len(t) = Len(b) + 1
    /\ t[1] = 0
    /\ \A i \in 1..Len(b) : t[i + 1] = t[i] + (1 - b[i])
(* select of every k: s enumerates positions of v in increasing order and   *)
(* there are as many of them as the (already justified) count says          *)
SelectTable(b, v, cnt, s) ==
    /\ Len(s) = cnt
    /\ \A k \in 1..Len(s) :
         /\ s[k] >= 0 /\ s[k] < Len(b)
         /\ b[s[k] + 1] = v
         /\ k > 1 => s[k - 1] < s[k]
(* nearest v at or before every i; NA where there is none *)
PredTable(b, v, t) ==
    /\ Len(t) = Len(b)
    /\ \A i \in 1..Len(b) :
         t[i] = IF b[i] = v THEN i - 1
                ELSE IF i = 1 THEN NA ELSE t[i - 1]
SuccTable(b, v, t) ==
    /\ Len(t) = Len(b)
    /\ \A i \in 1..Len(b) :
         t[i] = IF b[i] = v THEN i - 1
                ELSE IF i = Len(b) THEN NA ELSE t[i + 1]
AccessTable(b, t) == t = b

(* excess before every i *)
ExcessTable(b, t) ==
    /\ Len(t) = Len(b) + 1
    /\ t[1] = 0
    /\ \A i \in 1..Len(b) : t[i + 1] = t[i] + (2 * b[i] - 1)

(* up[i]: for a closing i its partner, for an opening i the opening of the  *)
(* innermost enclosing pair (NA at top level).  Both follow from what       *)
(* precedes i: after an opening the innermost open pair is that opening;    *)
(* after a closing it is whatever encloses the pair just closed.            *)
UpTable(b, up) ==
    /\ Len(up) = Len(b)
    /\ \A i \in 1..Len(b) :
         IF i = 1 THEN up[i] = NA
         ELSE IF b[i - 1] = 1 THEN up[i] = i - 2
         ELSE up[i - 1] >= 0 /\ up[i - 1] < i - 1 /\ up[i] = up[up[i - 1] + 1]
(* close[i]: for an opening i the closing whose partner is i; NA at closings *)
CloseTable(b, up, cl) ==
    /\ Len(cl) = Len(b)
    /\ \A i \in 1..Len(b) :
         IF b[i] = 0 THEN cl[i] = NA
         ELSE /\ cl[i] > i - 1 /\ cl[i] < Len(b)
              /\ b[cl[i] + 1] = 0
              /\ up[cl[i] + 1] = i - 1

(* Range minimum, leftmost on ties, for one fixed left end x and increasing *)
(* right ends ys (ms: the answers).  val(i) is the quantity minimised.      *)
(* Between consecutive right ends only the new positions need looking at.   *)
LeftBest(val(_), x, ys, ms) ==
    /\ Len(ms) = Len(ys)
    /\ \A k \in 1..Len(ys) :
         LET lo == IF k = 1 THEN x ELSE ys[k - 1] + 1
             p  == IF k = 1 THEN x ELSE ms[k - 1]
             m  == ms[k]
         IN  /\ ys[k] >= x /\ (k > 1 => ys[k] >= ys[k - 1])
             /\ (m = p) \/ (m >= lo /\ m <= ys[k] /\ val(m) < val(p))
             /\ \A j \in lo..ys[k] :
                  IF j < m THEN val(j) > val(m) ELSE val(j) >= val(m)
(* the same for a fixed right end y and decreasing left ends xs *)
RightBest(val(_), y, xs, ms) ==
    /\ Len(ms) = Len(xs)
    /\ \A k \in 1..Len(xs) :
         LET hi == IF k = 1 THEN y ELSE xs[k - 1] - 1
             p  == IF k = 1 THEN y ELSE ms[k - 1]
             m  == ms[k]
         IN  /\ xs[k] <= y /\ (k > 1 => xs[k] <= xs[k - 1])
             /\ (m = p) \/ (m >= xs[k] /\ m <= hi /\ val(m) <= val(p))
             /\ \A j \in xs[k]..hi :
                  IF j < m THEN val(j) > val(m) ELSE val(j) >= val(m)

(* answers for explicit (x, y) pairs *)
BestOf(val(_), x, y, m) ==
    /\ m >= x /\ m <= y
    /\ \A j \in x..(m - 1) : val(j) > val(m)
    /\ \A j \in (m + 1)..y : val(j) >= val(m)
=============================================================================
