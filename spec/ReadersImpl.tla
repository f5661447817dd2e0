---------------------------- MODULE ReadersImpl ----------------------------
(* Threads asking shared objects, step by step.  A query (here rank: the    *)
(* number of ones before a position) reads a directory entry, then a word,  *)
(* and computes in thread-local registers; objects are changed only while   *)
(* nobody asks them.  The variants keep something in the object or in       *)
(* static storage between or during queries: a memo of the last query,      *)
(* written by every reader and not reset with the content, a scratch        *)
(* register shared by all.                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Obj, Thr, W, Bug
Con == 1..(2 ^ (2 * W) - 1)                  \* contents: two words of W bits, as a number
Pos == 0..(2 * W - 1)
NOBODY == 0
Before(c, i) == Cardinality({j \in 0..(i - 1) : (c \div 2 ^ j) % 2 = 1})
VARIABLES obj, dir, memo, scratch, pc, q, reg, out
vars == <<obj, dir, memo, scratch, pc, q, reg, out>>
(* dir: cumulative counts stored in the object when it is built; memo[o]: <<position, answer>> *)
Dir(c) == [k \in 0..1 |-> Before(c, k * W)]
None == <<-1, -1>>
Idle(o) == \A t \in Thr : pc[t] = "idle" \/ q[t][1] # o
Init == /\ obj = [o \in Obj |-> NOBODY] /\ dir = [o \in Obj |-> <<>>] /\ memo = [o \in Obj |-> None] /\ scratch = 0
        /\ pc = [t \in Thr |-> "idle"] /\ q = [t \in Thr |-> <<0, 0>>] /\ reg = [t \in Thr |-> 0] /\ out = [t \in Thr |-> <<>>]
UQ == UNCHANGED <<pc, q, reg, out, scratch>>
Give(o, c) == /\ Idle(o) /\ obj[o] = NOBODY /\ obj' = [obj EXCEPT ![o] = c] /\ dir' = [dir EXCEPT ![o] = Dir(c)]
              /\ memo' = memo /\ UQ
Drop(o) == Idle(o) /\ obj[o] # NOBODY /\ obj' = [obj EXCEPT ![o] = NOBODY] /\ dir' = [dir EXCEPT ![o] = <<>>] /\ memo' = memo /\ UQ
Exchange(o, p) == /\ o # p /\ Idle(o) /\ Idle(p)
                  /\ obj' = [obj EXCEPT ![o] = obj[p], ![p] = obj[o]] /\ dir' = [dir EXCEPT ![o] = dir[p], ![p] = dir[o]]
                  /\ memo' = memo /\ UQ
US == UNCHANGED <<obj, dir>>
Ask(t, o, i) == /\ pc[t] = "idle" /\ obj[o] # NOBODY /\ q' = [q EXCEPT ![t] = <<o, i>>] /\ out' = [out EXCEPT ![t] = <<>>]
                /\ pc' = [pc EXCEPT ![t] = IF Bug = "memo" THEN "probe" ELSE "dir"]
                /\ UNCHANGED <<memo, scratch, reg>> /\ US
Answer(t, a) == out' = [out EXCEPT ![t] = <<a>>]
O(t) == q[t][1]
I(t) == q[t][2]
Probe(t) == /\ pc[t] = "probe" /\ US /\ UNCHANGED <<q, memo, scratch, reg>>
            /\ IF memo[O(t)][1] = I(t) THEN pc' = [pc EXCEPT ![t] = "hit"] /\ UNCHANGED out
               ELSE pc' = [pc EXCEPT ![t] = "dir"] /\ UNCHANGED out
Hit(t) == pc[t] = "hit" /\ pc' = [pc EXCEPT ![t] = "done"] /\ Answer(t, memo[O(t)][2]) /\ US /\ UNCHANGED <<q, memo, scratch, reg>>
ReadDir(t) == /\ pc[t] = "dir" /\ pc' = [pc EXCEPT ![t] = "word"] /\ US /\ UNCHANGED <<q, memo, out>>
              /\ LET d == dir[O(t)][I(t) \div W] IN
                 IF Bug = "scratch" THEN scratch' = d /\ UNCHANGED reg ELSE reg' = [reg EXCEPT ![t] = d] /\ UNCHANGED scratch
ReadWord(t) == /\ pc[t] = "word" /\ US /\ UNCHANGED <<q, memo, scratch>>
               /\ LET c == obj[O(t)] lo == (I(t) \div W) * W
                      a == (IF Bug = "scratch" THEN scratch ELSE reg[t]) + Before(c, I(t)) - Before(c, lo)
                  IN  /\ Answer(t, a) /\ reg' = [reg EXCEPT ![t] = a]
                      /\ pc' = [pc EXCEPT ![t] = IF Bug = "memo" THEN "keep1" ELSE "done"]
Keep1(t) == pc[t] = "keep1" /\ pc' = [pc EXCEPT ![t] = "keep2"] /\ memo' = [memo EXCEPT ![O(t)][1] = I(t)] /\ US /\ UNCHANGED <<q, reg, out, scratch>>
Keep2(t) == pc[t] = "keep2" /\ pc' = [pc EXCEPT ![t] = "done"] /\ memo' = [memo EXCEPT ![O(t)][2] = reg[t]] /\ US /\ UNCHANGED <<q, reg, out, scratch>>
Rest(t) == pc[t] = "done" /\ pc' = [pc EXCEPT ![t] = "idle"] /\ UNCHANGED <<q, reg, out, memo, scratch>> /\ US
Next == \/ \E o \in Obj : Drop(o) \/ (\E c \in Con : Give(o, c)) \/ \E p \in Obj : Exchange(o, p)
        \/ \E t \in Thr : Probe(t) \/ Hit(t) \/ ReadDir(t) \/ ReadWord(t) \/ Keep1(t) \/ Keep2(t) \/ Rest(t)
                          \/ \E o \in Obj, i \in Pos : Ask(t, o, i)
Spec == Init /\ [][Next]_vars /\ \A t \in Thr : WF_vars(Probe(t) \/ Hit(t) \/ ReadDir(t) \/ ReadWord(t) \/ Keep1(t) \/ Keep2(t))

AnswersTrue == \A t \in Thr : pc[t] = "done" => out[t] = <<Before(obj[O(t)], I(t))>>
(* queries change nothing that is shared *)
Silent == [][(\E t \in Thr : pc'[t] # pc[t]) => UNCHANGED <<obj, dir, memo, scratch>>]_vars
(* and they all come to an end *)
Answered == \A t \in Thr : (pc[t] # "idle") ~> (pc[t] \in {"done", "idle"})
LB == INSTANCE Library WITH obj <- obj
Refines == LB!LInit /\ [][LB!LNext]_<<obj>>
=============================================================================
