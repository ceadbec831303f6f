----------------------------- MODULE Composite -----------------------------
(***************************************************************************)
(* A galaxy of formed mass m and joint weights w is made of templates      *)
(* flux[i][j] (metallicity i, age j); light passes a dust screen and a     *)
(* filter.  Filters and screens act linearly on spectra, so the galaxy's   *)
(* photometry is the weighted sum of its templates' photometry.            *)
(***************************************************************************)
EXTENDS Galaxy, Photometry
Screens == INSTANCE Dust

\* light left of a spectrum behind a screen of transmission t (on its wavelengths)
Behind(t, spec)   == VMul(t, spec)
BehindAll(t, flux) ==
    TLCEval([i \in 1..Len(flux) |-> TLCEval([j \in 1..Len(flux[1]) |-> VMul(t, flux[i][j])])])
\* the number a table of quantities q[i][j] contributes to the galaxy
Composed(m, w, q) == m ** VSum([i \in 1..Len(w) |-> VDot(w[i], q[i])])
FluxOfMag(x) == IF NIsFin(x) THEN NPow10(N("-0.4") ** x)
                ELSE IF NGt(x, Zero) THEN Zero ELSE x
\* relative flux of every template through one filter
TemplateFluxes(ws, flux, wf, tf, zp1) ==
    TLCEval([i \in 1..Len(flux) |-> TLCEval([j \in 1..Len(flux[1]) |->
        RelFlux(ws, flux[i][j], wf, tf, zp1)])])
GalaxyFlux(m, w, ws, flux, wf, tf, zp1) ==
    Composed(m, w, TemplateFluxes(ws, flux, wf, tf, zp1))
=============================================================================
