----------------------------- MODULE TR_Galaxy -----------------------------
(***************************************************************************)
(* Trace validation of the galaxy machine.  The abstract state is the       *)
(* history formed so far and the last observation made of it; each event    *)
(* is one public call of dsps, judged against the specification's own       *)
(* evaluation of the step from that state.                                  *)
(***************************************************************************)
EXTENDS Galaxy, TraceBase

E9  == N("1e-9")
E10 == N("1e-10")
E12 == N("1e-12")
Z0  == Zero
Empty == [t |-> << >>, s |-> << >>, mass |-> << >>, sfrmin |-> "", obs |-> << >>, key |-> << >>]

SMin(x) == IF x = "" THEN SFRMin ELSE N(x)
Hist(smin) == History(st.t, st.s, smin)

AllNonNeg(x)  == \A i \in 1..Len(x) : NGe(x[i], Zero)
AllNonNeg2(x) == \A i \in 1..Len(x) : AllNonNeg(x[i])
Above(x, y)   == \A i \in 1..Len(x) : NGe(x[i], y)

Begin == IsOp("begin") /\ Step({}, Empty)

(* ---- FormStars: dsps.cumulative_mstar_formed --------------------------- *)
FormFails(t, s, want) ==
    Returned(Ev, Shaped("mass", Ev.out.mass, <<Len(t)>>,
        LET m == Out(Ev.out.mass) IN
        F("mass formed is the running trapezoid from (T_BIRTH_MIN, SFR_MIN)",
          \A i \in 1..Len(m) : Close(m[i], want[i], E10, Zero))
        \cup F("mass formed never decreases", AllNonNeg(s) => NonDecreasing(m))
        \cup F("mass formed is positive", AllNonNeg(s) => AllNonNeg(m))
        \cup F("forming more stars later changes no earlier mass",
               \A i \in 1..Len(m) :
                 (/\ i <= Len(st.mass)
                  /\ \A j \in 1..i : NEq(t[j], st.t[j]) /\ NEq(s[j], st.s[j]))
                 => Close(m[i], st.mass[i], E12, Zero))))
Form ==
    /\ IsOp("form")
    /\ LET t == In(Ev.in.t)  s == In(Ev.in.sfr)  want == FormedMass(t, s)
       IN Step(FormFails(t, s, want),
               [st EXCEPT !.t = t, !.s = s, !.mass = want])

\* a history taken as given, without asking for its mass
Adopt ==
    /\ IsOp("adopt")
    /\ Step({}, [st EXCEPT !.t = In(Ev.in.t), !.s = In(Ev.in.sfr)])

(* ---- Observe: calc_age_weights_from_sfh_table -------------------------- *)
\* share of the mass formed by tobs that the age grid resolves; the code works
\* in float64, so a small share costs it digits
AgeTol(h, lgage, tobs) ==
    LET tot == VSum(MassInAgeBins(h, lgage, tobs))
        m   == MassBy(h, tobs)
    IN IF NGt(tot, Zero) THEN E9 ++ (N("1e-12") ** (m // tot)) ELSE N("nan")
Resolvable(h, lgage, tobs) ==
    NGt(VSum(MassInAgeBins(h, lgage, tobs)), N("1e-5") ** MassBy(h, tobs))

AgeClauses(h, lgage, tobs, w) ==
    LET want == AgeWeights(h, lgage, tobs)
        tol  == AgeTol(h, lgage, tobs)
    IN F("age weights are the mass fractions formed in each age bin",
         AllClose(w, want, Zero, tol))
       \cup F("age weights are non-negative", Increasing(LgAgeEdges(lgage)) => Above(w, N("-1e-12")))
       \cup F("age weights sum to one", Close(VSum(w), One, E10, Zero))
Observe ==
    /\ IsOp("age_weights")
    /\ LET a == In(Ev.in.lgage)  to == N(Ev.in.tobs)
           h == Hist(SMin(Ev.in.sfrmin))
           key == <<Ev.in.lgage, Ev.in.tobs, Ev.in.sfrmin>>
           fails == IF ~Resolvable(h, a, to) THEN Silent("age grid resolves too little of the mass")
                    ELSE Returned(Ev, Shaped("age weights", Ev.out.w, <<Len(a)>>,
                      AgeClauses(h, a, to, Out(Ev.out.w))
                      \cup F("what happens after the observation changes nothing",
                             (st.key = key /\ st.obs # << >>) => AllClose(Out(Ev.out.w), st.obs, Zero, E12))))
       IN Step(fails, [st EXCEPT !.key = key,
                 !.obs = IF Ev.out.err = "" /\ Resolvable(h, a, to) THEN Out(Ev.out.w) ELSE << >>])

\* the part of the history past the first knot at or after tobs is replaced
Rewrite ==
    /\ IsOp("rewrite")
    /\ LET t == In(Ev.in.t)  s == In(Ev.in.sfr)  to == N(Ev.in.tobs)
           k == VSearch(st.t, to)
           keep == IF k >= 1 /\ NEq(st.t[k], to) THEN k ELSE k + 1
       IN Step(F("the driver only rewrote the future",
                 \A i \in 1..keep : i <= Len(st.t) => (i <= Len(t) /\ NEq(t[i], st.t[i]) /\ NEq(s[i], st.s[i]))),
               [st EXCEPT !.t = t, !.s = s, !.mass = FormedMass(t, s)])

(* ---- metallicity -------------------------------------------------------- *)
MdfClauses(w, x, sig, m) ==
    LET caught == MdfCaught(x, sig, m) IN
    (IF NGt(caught, N("1e-5")) \/ NEq(caught, Zero)
     THEN F("metallicity weights are the mass of the triweight blob in each bin",
            AllClose(w, MdfWeights(x, sig, m), Zero, E9))
     ELSE Silent("the metallicity kernel grazes the grid"))
    \cup F("metallicity weights are non-negative", Increasing(LgMetEdges(m)) => Above(w, N("-1e-9")))
    \cup F("metallicity weights sum to one", Close(VSum(w), One, E10, Zero))
Mdf ==
    /\ IsOp("mdf")
    /\ LET m == In(Ev.in.lgmets) IN
       Step(Returned(Ev, Shaped("metallicity weights", Ev.out.w, <<Len(m)>>,
              MdfClauses(Out(Ev.out.w), N(Ev.in.lgmet), N(Ev.in.scatter), m))), st)

MatrixClauses(w, lgz, sig, m, a, to) ==
    LET want == MetTableWeights(Log10s(st.t), lgz, sig, m, a, to) IN
    F("column j is the metallicity distribution at the birth of age j",
      AllClose2(w, want, Zero, E9))
    \cup F("metallicity matrix is non-negative",
           Increasing(LgMetEdges(m)) => \A i \in 1..Len(w) : Above(w[i], N("-1e-9")))
    \cup F("every column weighs 1/n_age",
           \A j \in 1..Len(a) : Close(VSum([i \in 1..Len(w) |-> w[i][j]]), One // N(Len(a)), E10, Zero))
MetMatrix ==
    /\ IsOp("met_matrix")
    /\ LET m == In(Ev.in.lgmets) a == In(Ev.in.lgage) lgz == In(Ev.in.lgz) IN
       Step(Returned(Ev, Shaped("metallicity matrix", Ev.out.w, <<Len(m), Len(a)>>,
              MatrixClauses(Out(Ev.out.w), lgz, N(Ev.in.scatter), m, a, N(Ev.in.tobs)))), st)

(* ---- joint weights ------------------------------------------------------ *)
JointClauses(w, wz, wa, want, tol) ==
    F("joint weights are the product of age and metallicity weights", AllClose2(w, want, Zero, tol))
    \cup F("joint weights sum to one", Close(Total2(w), One, E10, Zero))
    \cup F("summed over metallicity they are the age weights",
           \A j \in 1..Len(wa) : Close(VSum([i \in 1..Len(w) |-> w[i][j]]), wa[j], Zero, tol))
JointShapes(m, a, wzshape, rest) ==
    Returned(Ev, Shaped("joint weights", Ev.out.w, <<Len(m), Len(a)>>,
      Shaped("metallicity weights", Ev.out.wz, wzshape,
        Shaped("age weights", Ev.out.wa, <<Len(a)>>, rest))))
SspLnClauses(h, m, a, to) ==
    LET w == Out(Ev.out.w) wz == Out(Ev.out.wz) wa == Out(Ev.out.wa)
        x == N(Ev.in.lgmet) sig == N(Ev.in.scatter)
        mw == MdfWeights(x, sig, m)
    IN JointClauses(w, wz, wa, JointFromMarginals(mw, AgeWeights(h, a, to)), AgeTol(h, a, to))
       \cup F("summed over age they are the metallicity weights",
              \A i \in 1..Len(wz) : Close(VSum(w[i]), wz[i], Zero, E9))
       \cup AgeClauses(h, a, to, wa)
       \cup MdfClauses(wz, x, sig, m)
SspMtClauses(h, m, a, to) ==
    LET w == Out(Ev.out.w) wz == Out(Ev.out.wz) wa == Out(Ev.out.wa)
        lgz == In(Ev.in.lgz) sig == N(Ev.in.scatter)
        mw == MetTableWeights(Log10s(st.t), lgz, sig, m, a, to)
    IN JointClauses(w, wz, wa, JointFromTable(mw, AgeWeights(h, a, to)), AgeTol(h, a, to))
       \cup AgeClauses(h, a, to, wa)
       \cup MatrixClauses(wz, lgz, sig, m, a, to)
GoodMdf == NGt(MdfCaught(N(Ev.in.lgmet), N(Ev.in.scatter), In(Ev.in.lgmets)), N("1e-5"))
           \/ NEq(MdfCaught(N(Ev.in.lgmet), N(Ev.in.scatter), In(Ev.in.lgmets)), Zero)
SspLn ==
    /\ IsOp("ssp_ln")
    /\ LET m == In(Ev.in.lgmets) a == In(Ev.in.lgage) to == N(Ev.in.tobs) h == Hist(SMin(Ev.in.sfrmin)) IN
       Step(IF Resolvable(h, a, to) /\ GoodMdf
            THEN JointShapes(m, a, <<Len(m)>>, SspLnClauses(h, m, a, to)) ELSE Silent("unresolved galaxy"), st)
SspMt ==
    /\ IsOp("ssp_mt")
    /\ LET m == In(Ev.in.lgmets) a == In(Ev.in.lgage) to == N(Ev.in.tobs) h == Hist(SMin(Ev.in.sfrmin)) IN
       Step(IF Resolvable(h, a, to)
            THEN JointShapes(m, a, <<Len(m), Len(a)>>, SspMtClauses(h, m, a, to)) ELSE Silent("unresolved galaxy"), st)

(* ---- spectrum ----------------------------------------------------------- *)
\* whatever the weights are
OwnWeights(h, a, flux, to) ==
    F("the returned weights are the ones the SED was made with",
      LET w == Out(Ev.out.w) sed == Out(Ev.out.sed) IN
      (\A i \in 1..Len(w) : AllFinite(w[i])) =>
         LET own == Spectrum(MassBy(h, to), w, flux)
             size == Spectrum(MassBy(h, to), TLCEval([i \in 1..Len(w) |-> Map(NAbs, w[i])]),
                              TLCEval([i \in 1..Len(w) |-> TLCEval([j \in 1..Len(a) |-> Map(NAbs, flux[i][j])])]))
         IN \A k \in 1..Len(sed) : Close(sed[k], own[k], Zero, (N("1e-11") ** size[k]) ++ N("1e-290")))
Unresolved(m, a, wzshape, h, flux, to) ==
    Silent("unresolved galaxy: only the use of its weights") \cup
    JointShapes(m, a, wzshape, Shaped("sed", Ev.out.sed, <<Len(flux[1][1])>>, OwnWeights(h, a, flux, to)))
SedClauses(h, a, wjoint, flux, to) ==
    LET sed == Out(Ev.out.sed)
        want == Spectrum(MassBy(h, to), wjoint, flux)
        \* the brightest template at each wavelength, should all the mass be in it
        top(k) == MassBy(h, to) ** MaxOf([q \in 1..(Len(flux) * Len(a)) |->
                     NAbs(flux[((q - 1) \div Len(a)) + 1][((q - 1) % Len(a)) + 1][k])])
        tol == AgeTol(h, a, to)
    IN F("SED is the formed mass times the weighted sum of templates",
         \A k \in 1..Len(sed) : Close(sed[k], want[k], E9, tol ** top(k)))
       \cup OwnWeights(h, a, flux, to)
SedLn ==
    /\ IsOp("sed_ln")
    /\ LET m == In(Ev.in.lgmets) a == In(Ev.in.lgage) to == N(Ev.in.tobs)
           h == Hist(SMin(Ev.in.sfrmin)) flux == In(Ev.in.flux)
       IN Step(IF Resolvable(h, a, to) /\ GoodMdf
               THEN JointShapes(m, a, <<Len(m)>>, Shaped("sed", Ev.out.sed, <<Len(flux[1][1])>>,
                      SspLnClauses(h, m, a, to) \cup
                      SedClauses(h, a, JointFromMarginals(
                         MdfWeights(N(Ev.in.lgmet), N(Ev.in.scatter), m), AgeWeights(h, a, to)), flux, to)
                      \cup F("what happens after the observation changes nothing",
                             st.key = <<"sed", Ev.in>> =>
                               \A k \in 1..Len(st.obs) : Close(Out(Ev.out.sed)[k], st.obs[k], E12, Zero))))
               ELSE Unresolved(m, a, <<Len(m)>>, h, flux, to),
               [st EXCEPT !.key = <<"sed", Ev.in>>,
                  !.obs = IF Ev.out.err = "" THEN Out(Ev.out.sed) ELSE << >>])
SedMt ==
    /\ IsOp("sed_mt")
    /\ LET m == In(Ev.in.lgmets) a == In(Ev.in.lgage) to == N(Ev.in.tobs)
           h == Hist(SMin(Ev.in.sfrmin)) flux == In(Ev.in.flux)
       IN Step(IF Resolvable(h, a, to)
               THEN JointShapes(m, a, <<Len(m), Len(a)>>, Shaped("sed", Ev.out.sed, <<Len(flux[1][1])>>,
                      SspMtClauses(h, m, a, to) \cup
                      SedClauses(h, a, JointFromTable(
                         MetTableWeights(Log10s(st.t), In(Ev.in.lgz), N(Ev.in.scatter), m, a, to),
                         AgeWeights(h, a, to)), flux, to)))
               ELSE Unresolved(m, a, <<Len(m), Len(a)>>, h, flux, to), st)

(* ---- burst -------------------------------------------------------------- *)
Burst ==
    /\ IsOp("burst")
    /\ LET a == In(Ev.in.lgage) sw == In(Ev.in.smooth)
           peak == N(Ev.in.peak) max == N(Ev.in.max) fb == NPow10(N(Ev.in.lgfb))
           bw == BurstWeights(Shift(N("9"), a), peak, max)
           want == BurstMix(fb, bw, sw)
           \* float noise of the bump is amplified when the grid only grazes the window
           onWindow == \E i \in 1..Len(a) :
                      NLt(NAbs((a[i] ++ N("9")) -- peak) // (max -- peak), N("0.999"))
           offWindow == \A i \in 1..Len(a) :
                      NGe(NAbs((a[i] ++ N("9")) -- peak) // (max -- peak), N("1.001"))
       IN Step(IF onWindow \/ offWindow
               THEN Returned(Ev, Shaped("bursty weights", Ev.out.w, <<Len(a)>>,
                 LET w == Out(Ev.out.w) IN
                 F("bursty ages are fb burst + (1 - fb) smooth", AllClose(w, want, Zero, E10))
                 \cup F("bursty ages are non-negative", AllNonNeg(sw) => AllNonNeg(w))
                 \cup F("no burst stars outside [2 peak - max, max]",
                        \A i \in 1..Len(a) :
                          NGe(NAbs((a[i] ++ N("9")) -- peak) // (max -- peak), N("1.001"))
                          => Close(w[i], (One -- fb) ** sw[i], E12, N("1e-300")))
                 \cup F("the burst adds exactly the fraction fb",
                        (onWindow /\ NGt(VSum(sw), Zero))
                          => Close(VSum(w), fb ++ ((One -- fb) ** VSum(sw)), E10, Zero))))
               ELSE Silent("the age grid grazes the burst window"), st)

TraceNext == Begin \/ Form \/ Adopt \/ Observe \/ Rewrite \/ Mdf \/ MetMatrix
             \/ SspLn \/ SspMt \/ SedLn \/ SedMt \/ Burst
TraceSpec == TraceStart(Empty) /\ [][TraceNext]_traceVars
=============================================================================
