------------------------------- MODULE Lines -------------------------------
(***************************************************************************)
(* Measuring a spectral line: a quadratic continuum is fitted to two side  *)
(* windows, the line is what exceeds it in the line window.                *)
(***************************************************************************)
EXTENDS Vec
\* g = <<line lo, line mid, line hi, cont lo lo, cont lo hi, cont hi lo, cont hi hi>>
InContinuum(x, g) == (NGe(x, g[4]) /\ NLe(x, g[5])) \/ (NGe(x, g[6]) /\ NLe(x, g[7]))
InLine(x, g) == NGe(x, g[1]) /\ NLe(x, g[3])
Pick(w, f, g) == SelectSeq(TLCEval([i \in 1..Len(w) |-> <<w[i], f[i]>>]), LAMBDA q : InContinuum(q[1], g))

Mean(s) == VSum(s) // N(Len(s))
Det3(a, b, c) ==
    ((a[1] ** ((b[2] ** c[3]) -- (b[3] ** c[2])))
     -- (a[2] ** ((b[1] ** c[3]) -- (b[3] ** c[1]))))
     ++ (a[3] ** ((b[1] ** c[2]) -- (b[2] ** c[1])))
\* least squares quadratic in (x - mid) / half: [mid, half, c] with
\* value c[1] + c[2] u + c[3] u^2
QuadFit(pts) ==
    LET xs == TLCEval([i \in 1..Len(pts) |-> pts[i][1]])
        ys == TLCEval([i \in 1..Len(pts) |-> pts[i][2]])
        mid == TLCEval(Mean(xs))
        half == TLCEval(NMax(MaxOf(xs) -- mid, mid -- MinOf(xs)))
        u == TLCEval([i \in 1..Len(xs) |-> (xs[i] -- mid) // half])
        u2 == VMul(u, u)
        s0 == N(Len(xs))  s1 == TLCEval(VSum(u)) s2 == TLCEval(VSum(u2))
        s3 == TLCEval(VDot(u, u2)) s4 == TLCEval(VDot(u2, u2))
        r == TLCEval(<<VSum(ys), VDot(u, ys), VDot(u2, ys)>>)
        a == <<s0, s1, s2>> b == <<s1, s2, s3>> c == <<s2, s3, s4>>
        det == TLCEval(Det3(a, b, c))
    IN TLCEval([mid |-> mid, half |-> half,
        det |-> det // (s0 ** (s0 ** s0)),
        c |-> << Det3(r, b, c) // det, Det3(a, r, c) // det, Det3(a, b, r) // det >>])
At(q, x) == LET u == (x -- q.mid) // q.half IN q.c[1] ++ (u ** (q.c[2] ++ (u ** q.c[3])))
\* coefficients in plain x: <<c2, c1, c0>>
PlainCoefs(q) ==
    LET a2 == q.c[3] // (q.half ** q.half)
        a1 == q.c[2] // q.half
    IN << a2, a1 -- ((Two ** q.mid) ** a2), (q.c[1] -- (a1 ** q.mid)) ++ (a2 ** (q.mid ** q.mid)) >>

Excess(w, f, g, q) ==
    TLCEval([i \in 1..Len(w) |-> IF InLine(w[i], g) THEN f[i] -- At(q, w[i]) ELSE Zero])
LineFlux(w, f, g, q) == VTrapz(w, Excess(w, f, g, q))
EqWidth(w, f, g, q) == LineFlux(w, f, g, q) // At(q, g[2])
\* there is a continuum to speak of: three separate pixels in the windows
Fittable(pts) == Cardinality({pts[i][1] : i \in 1..Len(pts)}) >= 3
=============================================================================
