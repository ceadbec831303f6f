------------------------------ MODULE Kernels ------------------------------
(***************************************************************************)
(* The mathematical building blocks everything else is made of.  (Bin      *)
(* edges and widths are in Vec; the triweight kernel and its integral in   *)
(* Galaxy; the logistic function, its inverse and the rolling line in      *)
(* Params.)                                                                *)
(***************************************************************************)
EXTENDS Galaxy, Params

\* the triweight analogues of the logistic function and the rolling line
TwSigmoid(x, x0, h, lo, hi) == lo ++ ((hi -- lo) ** TwCdf((x -- x0) // h))
TwSigSlope(x, xtp, ytp, x0, h, lo, hi) ==
    ytp ++ (TwSigmoid(x, x0, h, lo, hi) ** (x -- xtp))

\* mass of a kernel centred on x between the edges; row i is bin i
TwHistogram(xs, sig, edges) ==
    LET col == TLCEval([j \in 1..Len(xs) |-> TwShares(xs[j], sig, edges)]) IN
    TLCEval([i \in 1..(Len(edges) - 1) |-> TLCEval([j \in 1..Len(xs) |-> col[j][i]])])

\* running integral of a piecewise linear function, zero at the first point
CumTrapz(x, y) ==
    RunSum(TLCEval([i \in 1..Len(x) |->
        IF i = 1 THEN Zero ELSE ((x[i] -- x[i - 1]) ** (y[i] ++ y[i - 1])) // Two]))
\* the same with magnitudes: what float error scales with
CumAbs(x, y) ==
    RunSum(TLCEval([i \in 1..Len(x) |->
        IF i = 1 THEN Zero ELSE (NAbs(x[i] -- x[i - 1]) ** (NAbs(y[i]) ++ NAbs(y[i - 1]))) // Two]))

\* density proportional to x^(g-1) on [a, b] and the inverse of its integral
PowerPdf(x, a, b, g) == (g ** NPow(x, g -- One)) // (NPow(b, g) -- NPow(a, g))
PowerCdf(x, a, b, g) == (NPow(x, g) -- NPow(a, g)) // (NPow(b, g) -- NPow(a, g))
PowerInv(u, a, b, g) ==
    NPow(NPow(a, g) ++ ((NPow(b, g) -- NPow(a, g)) ** u), One // g)
=============================================================================
