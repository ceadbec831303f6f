--------------------------- MODULE TR_Photometry ---------------------------
(* Trace validation of magnitudes, magnitude tables and filter utilities. *)
EXTENDS Photometry, TraceBase
Empty == [draws |-> << >>]
Begin == IsOp("begin") /\ Step({}, Empty)
E9  == N("1e-9")
E10 == N("1e-10")
E12 == N("1e-12")

\* a magnitude of relative flux f: infinite when there is no light
IsMag(m, f, extra) ==
    IF NGt(f, Zero) THEN Close(m, Mag(f) ++ extra, Zero, E9)
    ELSE ~NIsFin(m) /\ ~NIsNaN(m) /\ NGt(m, Zero)
MuOk(mu, z, c) == ~NGt(z, Zero) \/
    Close(mu, Modulus((One ++ z) ** Comoving(z, c)), Zero, N("3") ** DistTol(z, c))
Dim(z, mu) == mu -- (N("2.5") ** NLog10(One ++ z))

(* ---- one source, one filter --------------------------------------------- *)
Mags ==
    /\ IsOp("mags")
    /\ LET ws == In(Ev.in.ws) sp == In(Ev.in.sed) wf == In(Ev.in.wf) tf == In(Ev.in.tf)
           z == N(Ev.in.z) zp == One ++ z
           fr == RelFlux(ws, sp, wf, tf, One)
           fk == RelFlux(ws, sp, wf, tf, zp)
       IN Step(IF OnTheEdge(ws, wf, zp) THEN Silent("filter ends on the edge of the spectrum") ELSE Returned(Ev,
            LET mu == N(Ev.out.mu) IN
            F("restframe magnitude is -2.5 log10 of the AB-relative filter flux",
              IsMag(N(Ev.out.rest), fr, Zero))
            \cup F("restframe flux is the AB-relative filter flux", Close(N(Ev.out.flux), fr, E9, Zero))
            \cup F("k-corrected magnitude uses the redshifted SED", IsMag(N(Ev.out.kmag), fk, Zero))
            \cup F("distance modulus is that of the cosmology", MuOk(mu, z, In(Ev.in.c)))
            \cup F("observed magnitude adds distance modulus - 2.5 log10(1+z)",
                   NGt(z, Zero) => IsMag(N(Ev.out.obs), fk, Dim(z, mu)))), st)

(* ---- tables: [redshift,] metallicity, age, filter ------------------------ *)
EdgeInTable(ws, wfs, zp) == \E f \in 1..Len(wfs) : OnTheEdge(ws, wfs[f], zp)
TableOk(t, ws, fl, wfs, tfs, z, extra) ==
    \A i \in 1..Len(fl) : \A j \in 1..Len(fl[1]) : \A f \in 1..Len(wfs) :
        IsMag(t[i][j][f], RelFlux(ws, fl[i][j], wfs[f], tfs[f], One ++ z), extra)
Tables ==
    /\ IsOp("tables")
    /\ LET ws == In(Ev.in.ws) fl == In(Ev.in.flux) wfs == In(Ev.in.wfs) tfs == In(Ev.in.tfs)
           zs == In(Ev.in.zs) zk == N(Ev.in.zk) c == In(Ev.in.c)
           sh == <<Len(fl), Len(fl[1]), Len(wfs)>>
       IN Step(IF EdgeInTable(ws, wfs, One ++ zk) \/ \E q \in 1..Len(zs) : EdgeInTable(ws, wfs, One ++ zs[q])
               THEN Silent("filter ends on the edge of the spectrum") ELSE Returned(Ev,
            Shaped("restframe table", Ev.out.rest, sh,
              F("restframe table entry is the magnitude of that template and filter",
                TableOk(Out(Ev.out.rest), ws, fl, wfs, tfs, Zero, Zero)))
            \cup Shaped("k-corrected table", Ev.out.k, sh,
              F("k-corrected table entry is the undimmed magnitude of that template and filter",
                TableOk(Out(Ev.out.k), ws, fl, wfs, tfs, zk, Zero)))
            \cup Shaped("observed table", Ev.out.obs, <<Len(zs)>> \o sh,
              LET t == Out(Ev.out.obs) mu == In(Ev.out.mu) IN
              F("observed table entry is the magnitude of that redshift, template and filter",
                \A q \in 1..Len(zs) : TableOk(t[q], ws, fl, wfs, tfs, zs[q], Dim(zs[q], mu[q])))
              \cup F("distance modulus is that of the cosmology",
                \A q \in 1..Len(zs) : MuOk(mu[q], zs[q], c)))), st)

(* ---- filter utilities ---------------------------------------------------- *)
MinLen(x) == CHOOSE m \in {Len(x[i]) : i \in 1..Len(x)} : \A i \in 1..Len(x) : m <= Len(x[i])
Resample ==
    /\ IsOp("resample")
    /\ LET wfs == In(Ev.in.wfs) tfs == In(Ev.in.tfs)
           n == IF Ev.in.n = 0 THEN MinLen(wfs) ELSE Ev.in.n
       IN Step(Returned(Ev,
            Shaped("resampled wavelengths", Ev.out.w, <<Len(wfs), n>>,
            Shaped("resampled transmissions", Ev.out.t, <<Len(wfs), n>>,
              LET w == Out(Ev.out.w) t == Out(Ev.out.t) IN
              F("each filter is sampled from its own first to its own last wavelength",
                \A f \in 1..Len(wfs) : AllClose(w[f], Resampled(wfs[f], tfs[f], n).w, E12, Zero))
              \cup F("each filter keeps its own transmission",
                \A f \in 1..Len(wfs) : AllClose(t[f], Resampled(wfs[f], tfs[f], n).t, E9, E9))))), st)
EffectiveWave ==
    /\ IsOp("effwave")
    /\ Step(Returned(Ev,
         F("effective wavelength is the transmission-weighted mean over (1+z)",
           Close(N(Ev.out.leff), EffWave(In(Ev.in.wf), In(Ev.in.tf), N(Ev.in.z)), E10, Zero))), st)
RandomFilter ==
    /\ IsOp("rantrans")
    /\ LET lo == N(Ev.in.lo) hi == N(Ev.in.hi) sig == N(Ev.in.scale)
           key == <<Ev.in.seed, Ev.in.lo, Ev.in.hi, Ev.in.scale, Ev.in.center>> IN
       Step(Returned(Ev,
         LET w == Out(Ev.out.w) t == Out(Ev.out.t) n == Len(w)
             peak == CHOOSE i \in 1..n : NEq(t[i], MaxOf(t)) IN
         F("random filter covers the asked range", AllClose(w, Linspace(lo, hi, n), E12, Zero) /\ n >= 50)
         \cup F("random filter lies in [0, 1] with peak one",
                Len(t) = n /\ (\A i \in 1..n : NGe(t[i], Zero) /\ NLe(t[i], One ++ E12)) /\ Close(MaxOf(t), One, E12, Zero))
         \cup (IF Ev.in.center # "" THEN
               F("random filter is a Gaussian of the asked centre and width",
                 AllClose(t, GaussianFilter(w, N(Ev.in.center), sig), E9, E12))
               ELSE
               F("random filter is a Gaussian of the asked width",
                 \* the centre keeps two widths from the ends; the highest pixel is the nearest
                 /\ NGe(w[peak] ++ (w[2] -- w[1]), lo ++ (Two ** sig)) /\ NLe(w[peak] -- (w[2] -- w[1]), hi -- (Two ** sig))
                 \* a Gaussian's log has second difference -dw^2/sig^2
                 /\ \A i \in {peak - 1, peak, peak + 1} :
                      Close((NLn(t[i - 1]) ++ NLn(t[i + 1])) -- (Two ** NLn(t[i])),
                            NNeg(((w[2] -- w[1]) // sig) ** ((w[2] -- w[1]) // sig)), N("1e-6"), E10)))
         \cup F("random filter is fixed by its key",
                \A r \in 1..Len(st.draws) : st.draws[r][1] = key => st.draws[r][2] = t)),
         IF Ev.out.err = "" THEN [st EXCEPT !.draws = Append(@, <<key, Out(Ev.out.t)>>)] ELSE st)

\* dimming between source and observer, the distance modulus from a table or computed
Dimming ==
    /\ IsOp("dimtab")
    /\ LET z == In(Ev.in.z) zt == In(Ev.in.zt) mt == In(Ev.in.mt) n == Len(z)
           stretch(i) == N("2.5") ** NLog10(One ++ z[i])
       IN Step(Returned(Ev,
            Shaped("tabulated dimming", Ev.out.t, <<n>>,
              F("tabulated dimming is the interpolated modulus less the stretch of the bandwidth",
                \A i \in 1..n : Close(Out(Ev.out.t)[i], Interp(z[i], zt, mt) -- stretch(i), E12, E10)))
            \cup Shaped("dimming", Ev.out.d, <<n>>,
              F("dimming is the modulus less the stretch of the bandwidth",
                \A i \in 1..n : Close(Out(Ev.out.d)[i], Out(Ev.out.mu)[i] -- stretch(i), E12, E10)))), st)

TraceNext == Begin \/ Dimming \/ Mags \/ Tables \/ Resample \/ EffectiveWave \/ RandomFilter
TraceSpec == TraceStart(Empty) /\ [][TraceNext]_traceVars
=============================================================================
