------------------------------ MODULE TR_Lines ------------------------------
(* Trace validation of line measurements. *)
EXTENDS Lines, TraceBase
Empty == [done |-> << >>]
Begin == IsOp("begin") /\ Step({}, Empty)
E10 == N("1e-10")

\* float error: the code fits in raw x, so digits are lost to the ratio of
\* wavelength to window
Kappa(q, pts) ==
    LET r == One ++ (NAbs(q.mid) // q.half) IN
    (N("10") ** (r ** r)) // NSqrt(NMax(q.det, N("1e-12")))
Resid(q, pts) == MaxOf([i \in 1..Len(pts) |-> NAbs(pts[i][2] -- At(q, pts[i][1]))])
Big(f) == MaxOf([i \in 1..Len(f) |-> NAbs(f[i])])
ContTol(q, pts, f) ==
    LET k == Kappa(q, pts) eps == N("1e-15")
        ys == [i \in 1..Len(pts) |-> pts[i][2]] IN
    ((eps ** k) ** Big(ys)) ++ (((eps ** k) ** k) ** Resid(q, pts))
\* extrapolation to the points where the continuum is used
Reach(w, g, q) ==
    LET used == {i \in 1..Len(w) : InLine(w[i], g)}
        u(x) == NAbs((x -- q.mid) // q.half)
        top == MaxOf(<<One, u(g[2])>> \o [i \in 1..Len(w) |-> IF i \in used THEN u(w[i]) ELSE Zero])
    IN N("3") ** (top ** top)

Measure ==
    /\ IsOp("ew")
    /\ LET w == In(Ev.in.w) f == In(Ev.in.f) g == In(Ev.in.g)
           pts == Pick(w, f, g)
       IN Step(IF ~Fittable(pts) THEN Silent("fewer than three continuum pixels") ELSE
            LET q == QuadFit(pts) IN
            IF NGt(Kappa(q, pts), N("1e9")) THEN Silent("ill-conditioned fit") ELSE Returned(Ev,
            LET ctol == TLCEval(ContTol(q, pts, f) ** Reach(w, g, q))
                width == MaxOf(w) -- MinOf(w)
                want == TLCEval(LineFlux(w, f, g, q))
                cont == TLCEval(At(q, g[2]))
                ftol == (width ** (ctol ++ (N("1e-13") ** Big(TLCEval([i \in 1..Len(w) |-> IF InLine(w[i], g) THEN f[i] ELSE Zero])))))
                flux == N(Ev.out.flux) ew == N(Ev.out.ew) IN
            F("line flux is the integral above the fitted continuum", Close(flux, want, E10, ftol))
            \cup F("equivalent width is line flux over continuum",
                 NGt(NAbs(cont), N("1e3") ** ctol) =>
                    Close(ew, want // cont, E10 ++ ((N("3") ** ctol) // NAbs(cont)),
                          (Two ** ftol) // NAbs(cont)))
            \cup F("decomposition returns the same line flux", Close(N(Ev.out.flux2), want, E10, ftol))
            \cup F("decomposition returns the same width",
                 NGt(NAbs(cont), N("1e3") ** ctol) =>
                    Close(N(Ev.out.ew2), want // cont, E10 ++ ((N("3") ** ctol) // NAbs(cont)),
                          (Two ** ftol) // NAbs(cont)))
            \cup F("decomposition returns the continuum at the line", Close(N(Ev.out.cont), cont, E10, ctol))
            \cup Shaped("continuum coefficients", Ev.out.coefs, <<3>>,
               LET c == Out(Ev.out.coefs)
                   \* the coefficients are judged as the quadratic they denote
                   V(x) == c[3] ++ (x ** (c[2] ++ (x ** c[1]))) IN
               F("decomposition returns the fitted continuum",
                 \A x \in {g[2], pts[1][1], pts[Len(pts)][1], q.mid} : Close(V(x), At(q, x), E10, ctol)))
            \* metamorphic: an edit tells what it does to an earlier measurement
            \cup F("pixels outside all windows do not matter",
                 Ev.in.how = "outside" =>
                   LET b == st.done[Len(st.done)] IN Close(flux, b[1], E10, ftol) /\
                   (NGt(NAbs(cont), N("1e3") ** ctol) => Close(ew, b[2], E10, (Two ** ftol) // NAbs(cont))))
            \cup F("a scaled spectrum has scaled flux and the same width",
                 Ev.in.how = "x8" =>
                   LET b == st.done[Len(st.done)] IN
                   Close(flux, N("8") ** b[1], E10, ftol) /\
                   (NGt(NAbs(cont), N("1e3") ** ctol) => Close(ew, b[2], E10, (N("4") ** ftol) // NAbs(cont))))),
            IF Ev.out.err = "" THEN [st EXCEPT !.done = Append(@, <<N(Ev.out.flux), N(Ev.out.ew)>>)] ELSE st)

TraceNext == Begin \/ Measure
TraceSpec == TraceStart(Empty) /\ [][TraceNext]_traceVars
=============================================================================
