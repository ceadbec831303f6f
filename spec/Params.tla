------------------------------- MODULE Params -------------------------------
(***************************************************************************)
(* Parameters with bounds.  Every bounded parameter is an increasing       *)
(* logistic function of an unbounded one; two parameters of the package    *)
(* have a bound that is itself a parameter.                                *)
(***************************************************************************)
EXTENDS Vec

Sigmoid(x, x0, k, lo, hi) ==
    lo ++ ((hi -- lo) // (One ++ NExp(NNeg(k ** (x -- x0)))))
InvSigmoid(y, x0, k, lo, hi) ==
    x0 -- (NLn(((hi -- lo) // (y -- lo)) -- One) // k)
\* straight line through (xtp, ytp) whose slope rolls from lo to hi around x0
SigSlope(x, xtp, ytp, x0, k, lo, hi) ==
    ytp ++ (Sigmoid(x, x0, k, lo, hi) ** (x -- xtp))
Mid(lo, hi) == (lo ++ hi) // Two
BoundK == N("0.1")

(* A parameterisation is a sequence of rows [x0, lo, hi]; the last field   *)
(* "dep" says how lo or hi come from the parameters of the same vector.    *)
\* burst: <<lgfburst, lgyr_peak, lgyr_max>>
BurstLo(p, i) == IF i = 1 THEN N("-8") ELSE IF i = 2 THEN N("5") ELSE p[2] ++ One
BurstHi(p, i) == IF i = 1 THEN N("-1") ELSE IF i = 2 THEN N("8") ELSE N("9")
BurstX0(p, i) == IF i = 1 THEN N("-2") ELSE Mid(BurstLo(p, i), BurstHi(p, i))
\* bounds of a parameter never depend on a later one
BurstBound(u) ==
    LET p1 == TLCEval(Sigmoid(u[1], N("-2"), BoundK, N("-8"), N("-1")))
        p2 == TLCEval(Sigmoid(u[2], Mid(N("5"), N("8")), BoundK, N("5"), N("8")))
        lo == TLCEval(p2 ++ One)
    IN <<p1, p2, TLCEval(Sigmoid(u[3], Mid(lo, N("9")), BoundK, lo, N("9")))>>

\* mass-metallicity: ytp x0 k slope_lo slope_hi c0_y c1_y c0_early c1_early
MzrLoC == <<"-1", "10.25", "0.5", "0.1", "0", "-2", "0", "-1.5", "0">>
MzrHiC == <<"0.25", "10.75", "2", "1", "", "-1", "0.5", "-0.5", "0.5">>
MzrLo(p, i) == N(MzrLoC[i])
MzrHi(p, i) == IF i = 5 THEN p[4] ELSE N(MzrHiC[i])
MzrX0(p, i) == IF i = 5 THEN Zero ELSE Mid(MzrLo(p, i), MzrHi(p, i))
MzrBound(u) ==
    LET q == TLCEval([i \in 1..4 |-> Sigmoid(u[i], Mid(N(MzrLoC[i]), N(MzrHiC[i])), BoundK,
                                             N(MzrLoC[i]), N(MzrHiC[i]))])
    IN TLCEval([i \in 1..9 |-> IF i <= 4 THEN q[i]
                 ELSE Sigmoid(u[i], MzrX0(q, i), BoundK, MzrLo(q, i), MzrHi(q, i))])

Lo(kind, p, i) == IF kind = "burst" THEN BurstLo(p, i) ELSE MzrLo(p, i)
Hi(kind, p, i) == IF kind = "burst" THEN BurstHi(p, i) ELSE MzrHi(p, i)
X0(kind, p, i) == IF kind = "burst" THEN BurstX0(p, i) ELSE MzrX0(p, i)
Bound(kind, u) == IF kind = "burst" THEN BurstBound(u) ELSE MzrBound(u)
Unbound(kind, p) ==
    TLCEval([i \in 1..Len(p) |->
        InvSigmoid(p[i], X0(kind, p, i), BoundK, Lo(kind, p, i), Hi(kind, p, i))])
InBounds(kind, p) ==
    \A i \in 1..Len(p) : NGe(p[i], Lo(kind, p, i)) /\ NLe(p[i], Hi(kind, p, i))
\* strictly inside, so that the inverse exists
Inside(kind, p) ==
    \A i \in 1..Len(p) : NGt(p[i], Lo(kind, p, i)) /\ NLt(p[i], Hi(kind, p, i))
\* float64 error of the inverse of parameter i
UnboundTol(kind, p, i) ==
    LET lo == Lo(kind, p, i) hi == Hi(kind, p, i)
        big == NAbs(lo) ++ NAbs(hi)
    IN N("1e-11") ++ ((N("4e-15") ** big) **
        ((One // (p[i] -- lo)) ++ (One // (hi -- p[i]))))
UnboundTols(kind, p) == TLCEval([i \in 1..Len(p) |-> UnboundTol(kind, p, i)])

(* ---- mass-metallicity relation ----------------------------------------- *)
LgMetSolar == NLog10(N("0.012"))
EvolT0 == N("12.5")
EvolK  == N("1.6")
TlookC == N("8.44")
\* q = <<ytp, x0, k, slope_lo, slope_hi>>, pivot of the line xtp
MzrT0(lgm, xtp, q) ==
    SigSlope(lgm, xtp, q[1], q[2], q[3], q[4], q[5]) ++ LgMetSolar
\* e = <<c0_y, c1_y, c0_early, c1_early>>, tc the characteristic lookback time
MzrEvol(lgm, t, tc, e) ==
    LET y     == e[1] ++ (e[2] ** lgm)
        early == e[3] ++ (e[4] ** lgm)
        tlook == NMax(EvolT0 -- t, Zero)
    IN NMin(SigSlope(tlook, tc, y, tc, EvolK, y // tc, early), Zero)
\* old-style relation pivots at its own x0 and has tc as a parameter
MzrModel(impl, lgm, t, p) ==
    LET q == SubSeq(p, 1, 5) IN
    IF impl = "umzr" THEN MzrT0(lgm, N("10.5"), q) ++ MzrEvol(lgm, t, TlookC, SubSeq(p, 6, 9))
    ELSE MzrT0(lgm, p[2], q) ++ MzrEvol(lgm, t, p[8], <<p[6], p[7], p[9], p[10]>>)
MzrModelT0(impl, lgm, p) == MzrT0(lgm, IF impl = "umzr" THEN N("10.5") ELSE p[2], SubSeq(p, 1, 5))
Maiolino(lgm, m0, k0) == (N("-12") -- (N("0.0864") ** ((lgm -- m0) ** (lgm -- m0)))) ++ k0
=============================================================================
