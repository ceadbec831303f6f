-------------------------------- MODULE Vec --------------------------------
(* Tables: sequences of reals, and the few operations DSPS is made of.     *)
EXTENDS Num, Integers, FiniteSets

Map(Op(_), s)     == TLCEval([i \in 1..Len(s) |-> Op(s[i])])
Build(n, Op(_))   == TLCEval([i \in 1..n |-> Op(i)])
Scale(c, s)       == TLCEval([i \in 1..Len(s) |-> c ** s[i]])
Shift(c, s)       == TLCEval([i \in 1..Len(s) |-> c ++ s[i]])
VAdd(s, t)        == TLCEval([i \in 1..Len(s) |-> s[i] ++ t[i]])
VSub(s, t)        == TLCEval([i \in 1..Len(s) |-> s[i] -- t[i]])
VMul(s, t)        == TLCEval([i \in 1..Len(s) |-> s[i] ** t[i]])
Normalised(s)     == LET tot == VSum(s) IN TLCEval([i \in 1..Len(s) |-> s[i] // tot])
Log10s(s)         == TLCEval([i \in 1..Len(s) |-> NLog10(s[i])])
Pow10s(s)         == TLCEval([i \in 1..Len(s) |-> NPow10(s[i])])

RECURSIVE MaxOf(_), MinOf(_)                   \* evaluated by Nums.java, like the sums
MaxOf(s) == IF Len(s) = 1 THEN s[1] ELSE NMax(s[1], MaxOf(Tail(s)))
MinOf(s) == IF Len(s) = 1 THEN s[1] ELSE NMin(s[1], MinOf(Tail(s)))

Increasing(s)     == \A i \in 1..(Len(s) - 1) : NLt(s[i], s[i + 1])
NonDecreasing(s)  == \A i \in 1..(Len(s) - 1) : NLe(s[i], s[i + 1])
NonIncreasing(s)  == \A i \in 1..(Len(s) - 1) : NLe(s[i + 1], s[i])

\* running sums: RunSum(s)[i] = s[1] + ... + s[i]
RunSum(s) == [i \in 1..Len(s) |-> VSum(SubSeq(s, 1, i))]

(* Piecewise linear interpolation of the table (xp, fp), xp increasing;     *)
(* beyond the table its end values (Interp) or zero (InterpZero).           *)
Segment(x, xp, fp) ==
    LET k == VSearch(xp, x) IN
    fp[k] ++ ((x -- xp[k]) ** ((fp[k + 1] -- fp[k]) // (xp[k + 1] -- xp[k])))
Interp(x, xp, fp) ==
    LET k == VSearch(xp, x)
    IN IF k = 0 THEN fp[1] ELSE IF k = Len(xp) THEN fp[Len(xp)] ELSE Segment(x, xp, fp)
InterpZero(x, xp, fp) ==
    LET k == VSearch(xp, x) n == Len(xp)
    IN IF k = 0 THEN Zero
       ELSE IF k = n THEN (IF NEq(x, xp[n]) THEN fp[n] ELSE Zero)
       ELSE Segment(x, xp, fp)

(* Bins whose representative points are m: the width dt of bin i is half    *)
(* the distance between the neighbours of m[i]; each inner edge lies half a *)
(* width below its point.  Grids have at least three points.                *)
Widths(m) ==
    LET n == Len(m) IN
    TLCEval([i \in 1..n |->
        IF i = 1 THEN m[2] -- m[1]
        ELSE IF i < n THEN (m[i + 1] -- m[i - 1]) // Two
        ELSE ((m[n] -- m[n - 1]) // Two) ++ ((m[n] -- m[n - 2]) // N("4"))])
BinEdges(m, lo, hi) ==
    LET n == Len(m) d == TLCEval(Widths(m)) IN
    TLCEval([i \in 1..(n + 1) |->
        IF i = 1 THEN lo ELSE IF i = n + 1 THEN hi ELSE m[i] -- (d[i] // Two)])
=============================================================================
