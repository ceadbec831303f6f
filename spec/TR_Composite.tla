---------------------------- MODULE TR_Composite ----------------------------
(***************************************************************************)
(* Trace validation of whole observations: a galaxy is composed of its     *)
(* templates, reddened and seen through filters; the templates' tables are *)
(* computed separately and must add up to the galaxy.                      *)
(***************************************************************************)
EXTENDS Composite, TR_Galaxy
E8 == N("1e-8")

\* joint weights the specification gives the galaxy of the event
WantJoint(h, a, to, m) ==
    IF Ev.in.mode = "ln"
    THEN JointFromMarginals(MdfWeights(N(Ev.in.lgmet), N(Ev.in.scatter), m), AgeWeights(h, a, to))
    ELSE JointFromTable(MetTableWeights(Log10s(st.t), In(Ev.in.lgz), N(Ev.in.scatter), m, a, to),
                        AgeWeights(h, a, to))
EdgeIn(ws, wfs, zp) == \E q \in 1..Len(wfs) : OnTheEdge(ws, wfs[q], zp)
FluxTable(t, q) ==
    TLCEval([i \in 1..Len(t) |-> TLCEval([j \in 1..Len(t[1]) |-> FluxOfMag(t[i][j][q])])])
\* the galaxy's own magnitudes against the sum over a table of template magnitudes
AddsUp(mags, table, mass, w, tol) ==
    \A q \in 1..Len(mags) :
        LET want == Composed(mass, w, FluxTable(table, q)) IN
        Close(FluxOfMag(mags[q]), want, E8, tol ** mass ** MaxOf([i \in 1..Len(table) |->
               MaxOf([j \in 1..Len(table[1]) |-> FluxOfMag(table[i][j][q])])]))
\* and against the photometry of the specified spectrum
IsPhotometryOf(mags, sed, ws, wfs, tfs, zp, extra, tol) ==
    \A q \in 1..Len(mags) :
        LET want == RelFlux(ws, sed, wfs[q], tfs[q], zp)
            dim == NPow10(N("-0.4") ** extra) IN
        Close(FluxOfMag(mags[q]), want ** dim, E8,
              dim ** RelFlux(ws, tol, wfs[q], tfs[q], zp))

ComposeClauses(h, a, to, m, flux, ws, wfs, tfs, z) ==
    LET zp == One ++ z
        mass == MassBy(h, to)
        w == WantJoint(h, a, to, m)
        tol == AgeTol(h, a, to)
        screen == Out(Ev.out.trans)
        want == Spectrum(mass, w, flux)
        behind == BehindAll(screen, flux)
        dwant == Spectrum(mass, w, behind)
        sed == Out(Ev.out.sed) dsed == Out(Ev.out.dsed)
        \* weights are known to tol: so is a spectrum, in units of the brightest template
        stol == TLCEval([k \in 1..Len(ws) |-> tol ** (mass ** MaxOf([i \in 1..Len(flux) |->
                   MaxOf([j \in 1..Len(flux[1]) |-> NAbs(flux[i][j][k])])]))])
        mu == N(Ev.out.mu)
        dim == mu -- (N("2.5") ** NLog10(zp))
        rest == Out(Ev.out.rest) obs == Out(Ev.out.obs) drest == Out(Ev.out.drest)
        sh == <<Len(m), Len(a), Len(wfs)>>
    IN Shaped("restframe table", Ev.out.trest, sh,
       Shaped("k-corrected table", Ev.out.tk, sh,
       Shaped("observed table", Ev.out.tobs, <<1>> \o sh,
       Shaped("galaxy spectrum", Ev.out.sed, <<Len(ws)>>,
       Shaped("spectrum of dusty templates", Ev.out.dsed, <<Len(ws)>>,
       Shaped("dust transmission", Ev.out.trans, <<Len(ws)>>,
         F("restframe flux is the weighted sum of the templates' fluxes",
           AddsUp(rest, Out(Ev.out.trest), mass, w, tol))
         \cup F("observed flux is the weighted sum of the templates' fluxes",
           AddsUp(obs, Out(Ev.out.tobs)[1], mass, w, tol))
         \cup F("observed flux is the weighted sum of the templates' k-corrected fluxes, dimmed",
           AddsUp([q \in 1..Len(obs) |-> obs[q] -- dim], Out(Ev.out.tk), mass, w, tol))
         \cup F("restframe flux of the reddened galaxy is the weighted sum of reddened templates",
           AddsUp(drest, Out(Ev.out.dtrest), mass, w, tol))
         \cup F("restframe flux is that of the composed spectrum",
           IsPhotometryOf(rest, want, ws, wfs, tfs, One, Zero, stol))
         \cup F("observed flux is that of the composed spectrum",
           IsPhotometryOf(obs, want, ws, wfs, tfs, zp, dim, stol))
         \cup F("restframe flux of the reddened galaxy is that of the reddened spectrum",
           IsPhotometryOf(drest, dwant, ws, wfs, tfs, One, Zero, stol))
         \cup F("a screen on the templates is a screen on the galaxy",
           \A k \in 1..Len(ws) : Close(dsed[k], screen[k] ** sed[k], E9, Zero))
         \cup F("the screen is the specified transmission",
           \A k \in 1..Len(ws) :
             LET u == ws[k] // N("1e4") av == N(Ev.in.av)
                 c == Screens!Reddening(Ev.in.law, u, In(Ev.in.p))
             IN Close(screen[k], Screens!Transmission(c, av, N(Ev.in.floor)),
                      N("1e-9") ** (One ++ NAbs(av ** c)), N("1e-12")))
         \cup F("the distance modulus is that of the cosmology",
           NEq(z, Zero) \/ Close(mu, Modulus(zp ** Comoving(z, In(Ev.in.c))), Zero, N("3") ** DistTol(z, In(Ev.in.c))))))))))
Compose ==
    /\ IsOp("compose")
    /\ LET m == In(Ev.in.lgmets) a == In(Ev.in.lgage) to == N(Ev.in.tobs) z == N(Ev.in.z)
           h == Hist(SMin(Ev.in.sfrmin)) flux == In(Ev.in.flux)
           ws == In(Ev.in.ws) wfs == In(Ev.in.wfs) tfs == In(Ev.in.tfs)
       IN Step(IF Resolvable(h, a, to) /\ (Ev.in.mode = "ln" => GoodMdf)
                  /\ ~EdgeIn(ws, wfs, One) /\ ~EdgeIn(ws, wfs, One ++ z)
               THEN Returned(Ev, ComposeClauses(h, a, to, m, flux, ws, wfs, tfs, z))
               ELSE Silent("unresolved galaxy, or a filter ends on the edge of the spectrum"), st)

CompositeNext == TraceNext \/ Compose
CompositeSpec == TraceStart(Empty) /\ [][CompositeNext]_traceVars
=============================================================================
