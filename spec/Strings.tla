------------------------------ MODULE Strings ------------------------------
(* Strings are sequences of characters (TLC's Len, SubSeq and \o accept     *)
(* them).                                                                   *)
EXTENDS Sequences, Integers, FiniteSets, TLC
Ch(s, i)   == SubSeq(s, i, i)
Rest(s, i) == SubSeq(s, i, Len(s))
Chars(s)   == {Ch(s, i) : i \in 1..Len(s)}
RECURSIVE FindFrom(_, _, _)
\* first position >= i of character c, 0 if none
FindFrom(s, c, i) == IF i > Len(s) THEN 0 ELSE IF Ch(s, i) = c THEN i ELSE FindFrom(s, c, i + 1)
RECURSIVE Join(_)
Join(parts) == IF parts = << >> THEN "" ELSE parts[1] \o Join(Tail(parts))
RECURSIVE StripLeft(_)
Blank(c) == c \in {" ", "\t", "\n", "\r"}
StripLeft(s) == IF s # "" /\ Blank(Ch(s, 1)) THEN StripLeft(Rest(s, 2)) ELSE s
RECURSIVE StripRight(_)
StripRight(s) == IF s # "" /\ Blank(Ch(s, Len(s))) THEN StripRight(SubSeq(s, 1, Len(s) - 1)) ELSE s
Strip(s) == StripLeft(StripRight(s))

(* file name patterns of the shell: * any run, ? any one, [abc] one of, and *)
(* a leading dot is only matched by a leading dot.                          *)
RECURSIVE GlobFrom(_, _)
GlobFrom(p, s) ==
    IF p = "" THEN s = ""
    ELSE IF Ch(p, 1) = "*"
         THEN GlobFrom(Rest(p, 2), s) \/ (s # "" /\ GlobFrom(p, Rest(s, 2)))
    ELSE IF s = "" THEN FALSE
    ELSE IF Ch(p, 1) = "?" THEN GlobFrom(Rest(p, 2), Rest(s, 2))
    ELSE IF Ch(p, 1) = "[" /\ FindFrom(p, "]", 3) > 0
         THEN LET k == FindFrom(p, "]", 3)
                  neg == Ch(p, 2) = "!"
                  set == Chars(SubSeq(p, IF neg THEN 3 ELSE 2, k - 1))
              IN ((Ch(s, 1) \in set) # neg) /\ GlobFrom(Rest(p, k + 1), Rest(s, 2))
    ELSE Ch(p, 1) = Ch(s, 1) /\ GlobFrom(Rest(p, 2), Rest(s, 2))
Glob(p, s) == GlobFrom(p, s) /\ ((s # "" /\ Ch(s, 1) = ".") => (p # "" /\ Ch(p, 1) = "."))
=============================================================================
