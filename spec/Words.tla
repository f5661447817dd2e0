------------------------------- MODULE Words -------------------------------
(* 64-bit words.  In traces a word is four 16-bit pieces, least significant *)
(* first; abstractly it is a function from bit number 0..63 to {0,1}.       *)
EXTENDS Integers, Sequences
P2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536>>
Piece(f(_), o) ==
    f(o) + 2 * f(o + 1) + 4 * f(o + 2) + 8 * f(o + 3) + 16 * f(o + 4) + 32 * f(o + 5)
    + 64 * f(o + 6) + 128 * f(o + 7) + 256 * f(o + 8) + 512 * f(o + 9) + 1024 * f(o + 10)
    + 2048 * f(o + 11) + 4096 * f(o + 12) + 8192 * f(o + 13) + 16384 * f(o + 14) + 32768 * f(o + 15)
(* the word whose bit j is f(j) *)
WordOf(f(_)) == <<Piece(f, 0), Piece(f, 16), Piece(f, 32), Piece(f, 48)>>
(* bit j of a word in pieces *)
BitOf(w, j) == (w[(j \div 16) + 1] \div P2[(j % 16) + 1]) % 2
(* all 64 bits *)
BitsOf(w) == [j \in 0..63 |-> (w[(j \div 16) + 1] \div P2[(j % 16) + 1]) % 2]
IsWord(w) == Len(w) = 4 /\ \A i \in 1..4 : w[i] \in 0..65535
(* the field of len bits of b at pos, zero above len and beyond the end *)
FieldWord(b, pos, len) ==
    LET n == Len(b)
        f(j) == IF j < len /\ pos + j < n THEN b[pos + j + 1] ELSE 0
    IN  WordOf(f)
=============================================================================
