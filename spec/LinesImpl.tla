----------------------------- MODULE LinesImpl -----------------------------
(* The line readers as the library implements them.  Stream reader: fgets   *)
(* into a buffer of K characters (one of them the terminator), pieces put   *)
(* together until one ends in a newline or the input ends; line iterator on *)
(* top of it, primed by its constructor; buffer iterator scanning a text of *)
(* known length, with the null position as its end.  Every text over        *)
(* {a, CR, LF} up to MaxLen, K from 2 up.                                   *)
EXTENDS Lines, TLC
CONSTANTS MaxLen, KS, Bug
A == 97
Chars == {A, CR, LF}
VARIABLES how, K, t, pos, line, got, open, it
(* got: lines delivered; open: inside fast_getline; it: "new", "on", "end"  *)
vars == <<how, K, t, pos, line, got, open, it>>
Init == /\ how \in {"keep", "trim", "chomp"} /\ K \in (IF how = "chomp" THEN {2} ELSE KS)
        /\ t \in UNION {[1..n -> Chars] : n \in 0..MaxLen}
        /\ pos = 0 /\ line = <<>> /\ got = <<>> /\ open = FALSE /\ it = "new"

(* fgets: up to K-1 characters, through the first newline; <<>> at the end of the input *)
Fgets == LET room == IF K - 1 < Len(t) - pos THEN K - 1 ELSE Len(t) - pos
             stops == {i \in 1..room : t[pos + i] = LF}
             n == IF stops = {} THEN room ELSE CHOOSE i \in stops : \A j \in stops : i <= j
         IN  SubSeq(t, pos + 1, pos + n)
Last(s) == s[Len(s)]
Fix(s) == IF how = "trim" THEN Trimmed(s) ELSE s
UC == UNCHANGED <<how, K, t>>
Call == how # "chomp" /\ ~open /\ it # "end" /\ open' = TRUE /\ line' = <<>> /\ UC /\ UNCHANGED <<pos, got, it>>
Deliver(s) == /\ open' = FALSE /\ line' = <<>> /\ it' = "on"
              /\ got' = IF Bug = "no_prime" /\ it = "new" THEN got \o <<<<>>, Fix(s)>> ELSE Append(got, Fix(s))
Piece ==
    /\ open /\ UC
    /\ LET p == Fgets IN
       /\ pos' = pos + Len(p)
       /\ IF p = <<>>
          THEN IF line = <<>> THEN open' = FALSE /\ it' = "end" /\ UNCHANGED <<line, got>>
               ELSE Deliver(IF Bug = "dup_last" THEN line \o line ELSE line)
          ELSE LET q == (IF Bug = "trim_piece" /\ how = "trim" THEN Trimmed(line) ELSE line) \o p
                   full == IF Bug = "full_buffer" THEN Len(p) + 1 < K ELSE Last(p) = LF
               IN  IF full THEN Deliver(q) ELSE line' = q /\ UNCHANGED <<open, got, it>>

(* the buffer iterator: one increment; position Len(t)+1 stands past the end, it = "end" is the null position *)
Scan(p) == LET S == {j \in (p + 1)..Len(t) : t[j] = LF} IN IF S = {} THEN Len(t) ELSE (CHOOSE j \in S : \A k \in S : j <= k) - 1
Increment ==
    /\ how = "chomp" /\ it # "end" /\ UC /\ UNCHANGED <<line, open>>
    /\ IF (IF Bug = "end_equal" THEN pos = Len(t) ELSE pos >= Len(t)) THEN it' = "end" /\ UNCHANGED <<pos, got>>
       ELSE /\ Assert(pos < Len(t), "reading past the end")
            /\ LET e == Scan(pos)
                   c == IF pos # e /\ t[e] = CR THEN e - 1 ELSE e
               IN  pos' = e + 1 /\ it' = "on" /\ got' = Append(got, SubSeq(t, pos + 1, c))
Next == Call \/ Piece \/ Increment
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Prefix(s, z) == Len(s) <= Len(z) /\ \A i \in 1..Len(s) : s[i] = z[i]
LinesExact == Prefix(got, Expected(how, t)) /\ (it = "end" => got = Expected(how, t))
Finishes == <>(it = "end")
=============================================================================
