-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Real arithmetic for the DSPS specification.                             *)
(*                                                                         *)
(* The definitions below are over the real numbers.  TLC cannot evaluate   *)
(* them as written, so /verif/java/dspsnum/Nums.java overrides each of     *)
(* them with an evaluation in 45-digit decimal arithmetic (29 digits more  *)
(* than the float64 implementation carries): within the tolerances used    *)
(* here that is the real number.  A literal is written N("0.5"); the       *)
(* implementation's recorded numbers are the same kind of string.          *)
(* Besides the reals there are the three non-numbers an implementation can *)
(* return: nan, inf and -inf.  Any comparison with nan is FALSE, so every  *)
(* clause "x is close to y" or "x <= y" fails when the code returned nan.  *)
(***************************************************************************)
EXTENDS Reals, Sequences, TLC

LOCAL RealOf(s) == CHOOSE r \in Real : TRUE

N(x)  == IF x \in Real THEN x ELSE RealOf(x)   \* the number a literal denotes
NAdd(a, b) == a + b
NSub(a, b) == a - b
NMul(a, b) == a * b
NDiv(a, b) == a / b                            \* nan when b = 0
NNeg(a)    == 0 - a
NAbs(a)    == IF a < 0 THEN 0 - a ELSE a
NLt(a, b)  == a < b
NLe(a, b)  == a <= b
NEq(a, b)  == a = b
NIsFin(a)  == a \in Real
NIsNaN(a)  == a \notin Real \cup {Infinity, -Infinity}
NFloor(a)  == CHOOSE k \in Int : k <= a /\ a < k + 1
NSqrt(a)   == CHOOSE r \in Real : r >= 0 /\ r * r = a

\* exp is the unique differentiable f with f(0) = 1, f' = f; stated through
\* its inequality characterisation exp(x + y) = exp(x) exp(y) >= 1 + x + y.
LOCAL ExpFn == CHOOSE f \in [Real -> Real] :
                 \A x, y \in Real : /\ f[x + y] = f[x] * f[y]
                                    /\ f[x] >= 1 + x
NExp(a)    == ExpFn[a]
NLn(a)     == CHOOSE y \in Real : ExpFn[y] = a
NLog10(a)  == NLn(a) / NLn(10)
NPow10(a)  == NExp(a * NLn(10))
NPow(a, b) == NExp(b * NLn(a))                 \* and repeated product for integer b
NStr(a)    == CHOOSE s \in STRING : RealOf(s) = a

RECURSIVE NDeep(_)
NDeep(x)   == IF x \in Seq(STRING) THEN [i \in 1..Len(x) |-> N(x[i])]
              ELSE [i \in 1..Len(x) |-> NDeep(x[i])]   \* nested sequences

RECURSIVE VSum(_)
VSum(s)    == IF s = << >> THEN 0 ELSE s[1] + VSum(Tail(s))
VDot(s, t) == VSum([i \in 1..Len(s) |-> s[i] * t[i]])
VTrapz(x, y) == VSum([i \in 1..(Len(x) - 1) |->
                        ((x[i + 1] - x[i]) * (y[i + 1] + y[i])) / 2])

\* number of entries of the non-decreasing sequence s that are <= x
VSearch(s, x) == CHOOSE k \in 0..Len(s) : \A i \in 1..Len(s) : (s[i] <= x) <=> (i <= k)

a ++ b == NAdd(a, b)
a -- b == NSub(a, b)
a ** b == NMul(a, b)
a // b == NDiv(a, b)

Zero == N("0")
One  == N("1")
Two  == N("2")
Half == N("0.5")

NMax(a, b) == IF NLe(a, b) THEN b ELSE a
NMin(a, b) == IF NLe(a, b) THEN a ELSE b
NGt(a, b)  == NLt(b, a)
NGe(a, b)  == NLe(b, a)
NClip(x, lo, hi) == NMin(NMax(x, lo), hi)

(* |a - b| <= atol + rtol |b| ; FALSE if a is nan/inf and b is a number     *)
Close(a, b, rtol, atol) ==
    NIsFin(a) /\ NIsFin(b) /\ NLe(NAbs(a -- b), atol ++ (rtol ** NAbs(b)))
=============================================================================
