----------------------------- MODULE Photometry -----------------------------
(***************************************************************************)
(* A source of spectrum L (Lsun/Hz, piecewise linear in restframe          *)
(* wavelength, dark outside its table) is seen through a filter.           *)
(***************************************************************************)
EXTENDS Cosmology

AB0 == N("1.13492e-13")      \* 3631 Jy at 10 pc, Lsun/Hz

\* photon-counting integral of the spectrum (stretched by zp1) over the filter
FilterFlux(ws, l, wf, tf, zp1) ==
    LET w == IF NEq(zp1, One) THEN ws ELSE Scale(zp1, ws) IN
    VTrapz(wf, TLCEval([i \in 1..Len(wf) |-> tf[i] ** (InterpZero(wf[i], w, l) // wf[i])]))
FluxAB(wf, tf) == VTrapz(wf, TLCEval([i \in 1..Len(wf) |-> tf[i] ** (AB0 // wf[i])]))
RelFlux(ws, l, wf, tf, zp1) == FilterFlux(ws, l, wf, tf, zp1) // FluxAB(wf, tf)
Mag(f) == N("-2.5") ** NLog10(f)
RestMag(ws, l, wf, tf) == Mag(RelFlux(ws, l, wf, tf, One))
KMag(ws, l, wf, tf, z) == Mag(RelFlux(ws, l, wf, tf, One ++ z))
\* mu is the distance modulus
ObsMag(ws, l, wf, tf, z, mu) ==
    (KMag(ws, l, wf, tf, z) ++ mu) -- (N("2.5") ** NLog10(One ++ z))
\* the table entry at the end of the filter coincides with the (stretched) end
\* of the spectrum to within rounding: in or out is a matter of luck
OnTheEdge(ws, wf, zp1) ==
    \E i \in 1..Len(wf), e \in {1, Len(ws)} :
        /\ ~NEq(wf[i], ws[e] ** zp1)
        /\ Close(wf[i], ws[e] ** zp1, N("1e-12"), Zero)

(* ---- filter utilities --------------------------------------------------- *)
Linspace(a, b, n) ==
    TLCEval([i \in 1..n |-> IF n = 1 THEN a ELSE a ++ (((b -- a) ** N(i - 1)) // N(n - 1))])
Resampled(w, t, n) ==
    LET x == Linspace(w[1], w[Len(w)], n) IN
    [w |-> x, t |-> TLCEval([i \in 1..n |-> Interp(x[i], w, t)])]
EffWave(w, t, z) ==
    (VTrapz(w, VMul(t, w)) // VTrapz(w, t)) // (One ++ z)
GaussianFilter(w, mid, sig) ==
    LET g == TLCEval([i \in 1..Len(w) |->
               NExp(NNeg((((w[i] -- mid) // sig) ** ((w[i] -- mid) // sig)) // Two))])
        top == MaxOf(g)
    IN TLCEval([i \in 1..Len(w) |-> g[i] // top])
=============================================================================
