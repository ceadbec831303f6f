---------------------------- MODULE TR_Cosmology ----------------------------
(* Trace validation of the cosmology functions.  st.pts holds what has been
   observed in the current universe: <<z, dc, age>> of earlier calls. *)
EXTENDS Cosmology, TraceBase
Empty == [c |-> << >>, pts |-> << >>]
Begin == IsOp("begin") /\ Step({}, Empty)
E10 == N("1e-10")
E12 == N("1e-12")
\* recorded at single redshifts and on the array of them
Agree(one, many) ==
    F("array versions agree element by element with the scalar ones",
      /\ Len(one) = Len(many)
      /\ \A i \in 1..Len(one) : Close(many[i], one[i], E12, N("1e-13"))
                                \/ (~NIsFin(one[i]) /\ ~NIsFin(many[i])))
AllShaped(z, rest) ==
    IF \E k \in DOMAIN Ev.out.many : Ev.out.many[k].sh # <<Len(z)>> THEN {"one value per redshift"}
    ELSE IF \E k \in DOMAIN Ev.out.one : Ev.out.one[k].sh # <<Len(z)>> THEN {"one value per redshift"}
    ELSE rest

\* far away the code's quadrature may be off by more than a small step
Slack(z, v, c) == IF NLe(z, One) THEN Zero ELSE DistTol(z, c) ** v

Choose ==
    /\ IsOp("universe")
    /\ Step({}, [c |-> In(Ev.in.c), pts |-> << >>])

Distances ==
    /\ IsOp("distances")
    /\ LET z == In(Ev.in.z) c == st.c n == Len(z) IN
       Step(Returned(Ev, AllShaped(z,
         LET o == TLCEval([k \in DOMAIN Ev.out.one |-> NDeep(Ev.out.one[k].v)])
             a == TLCEval([k \in DOMAIN Ev.out.many |-> NDeep(Ev.out.many[k].v)])
         IN F("comoving distance is c/H0 times the integral of 1/E",
              \A i \in 1..n : Close(o.dc[i], Comoving(z[i], c), DistTol(z[i], c), Zero))
            \cup F("comoving distance is zero here and grows with redshift",
              /\ \A i \in 1..n : NEq(z[i], Zero) => NEq(o.dc[i], Zero)
              /\ \A i, j \in 1..n : NLt(z[i], z[j]) => NLt(o.dc[i], o.dc[j] ++ Slack(z[j], o.dc[j], c))
              /\ \A i \in 1..n : \A q \in 1..Len(st.pts) :
                   NLt(st.pts[q][1], z[i]) => NLt(st.pts[q][2], o.dc[i] ++ Slack(z[i], o.dc[i], c)))
            \cup F("luminosity distance is (1+z) comoving distance",
              \A i \in 1..n : Close(o.dl[i], (One ++ z[i]) ** o.dc[i], E12, Zero))
            \cup F("angular diameter distance is comoving distance / (1+z)",
              \A i \in 1..n : Close(o.da[i], o.dc[i] // (One ++ z[i]), E12, Zero))
            \cup F("distance modulus is 5 log10(d_L / 10 pc)",
              \A i \in 1..n : NGt(z[i], Zero) => Close(o.mu[i], Modulus(o.dl[i]), Zero, E10))
            \cup Agree(o.dc, a.dc) \cup Agree(o.dl, a.dl) \cup Agree(o.da, a.da) \cup Agree(o.mu, a.mu))),
         IF Ev.out.err = "" /\ Ev.out.one.dc.sh = <<n>>
         THEN [st EXCEPT !.pts = @ \o [i \in 1..n |-> <<z[i], Out(Ev.out.one.dc)[i], Zero>>]] ELSE st)

Times ==
    /\ IsOp("times")
    /\ LET z == In(Ev.in.z) c == st.c n == Len(z) IN
       Step(Returned(Ev, AllShaped(z,
         LET o == TLCEval([k \in DOMAIN Ev.out.one |-> NDeep(Ev.out.one[k].v)])
             a == TLCEval([k \in DOMAIN Ev.out.many |-> NDeep(Ev.out.many[k].v)])
             t0 == N(Ev.out.t0)  T0 == AgeToday(c)
         IN F("age today is the integral of da/(aH)", Close(t0, T0, N("2e-4"), Zero))
            \cup F("lookback time is its integral",
              \A i \in 1..n : Close(o.look[i], Lookback(z[i], c), DistTol(z[i], c), Zero))
            \cup F("age and lookback time add up to the age today",
              \A i \in 1..n : Close(o.age[i] ++ o.look[i], t0, E12, Zero))
            \cup F("age at z is close to its integral",
              \A i \in 1..n : NLe(z[i], N("20")) => Close(o.age[i], AgeAt(z[i], c), Zero, N("5e-4") ** T0))
            \cup F("age is positive and falls with redshift",
              /\ \A i \in 1..n : NLe(z[i], N("20")) => NGt(o.age[i], Zero)
              /\ \A i, j \in 1..n : NLt(z[i], z[j]) => NGt(o.age[i] ++ Slack(z[j], o.look[j], c), o.age[j]))
            \cup Agree(o.look, a.look) \cup Agree(o.age, a.age))), st)

\* the package-wide age of the universe; TODAY may have been computed in
\* single precision when cosmology is imported on its own
Today ==
    /\ IsOp("today")
    /\ Step(Returned(Ev,
         LET c == In(Ev.out.c) IN
         F("TODAY is the age of the default cosmology",
           /\ c = NDeep(<<"0.3075", "-1", "0", "0.6774">>)
           /\ Close(N(Ev.out.today), N(Ev.out.t0), N("2e-6"), Zero)
           /\ Close(N(Ev.out.today), AgeToday(c), N("2e-4"), Zero))), st)

Densities ==
    /\ IsOp("densities")
    /\ LET z == In(Ev.in.z) c == st.c n == Len(z) IN
       Step(Returned(Ev, AllShaped(z,
         LET o == TLCEval([k \in DOMAIN Ev.out.one |-> NDeep(Ev.out.one[k].v)])
             a == TLCEval([k \in DOMAIN Ev.out.many |-> NDeep(Ev.out.many[k].v)])
         IN F("critical density is rho_crit0 h^2 E^2",
              \A i \in 1..n : Close(o.rho[i], CritDensity(z[i], c), E10, Zero))
            \cup F("virial crossing time follows from E and Om(z)",
              \A i \in 1..n : Close(o.tvir[i], VirialTime(z[i], c), E10, Zero))
            \cup F("volume element is c/H0 d_C^2 / E",
              \A i \in 1..n : Close(o.vol[i], VolumeElement(o.dc[i], z[i], c), E10, Zero))
            \cup Agree(o.rho, a.rho) \cup Agree(o.tvir, a.tvir) \cup Agree(o.vol, a.vol))), st)

TraceNext == Begin \/ Choose \/ Distances \/ Times \/ Today \/ Densities
TraceSpec == TraceStart(Empty) /\ [][TraceNext]_traceVars
=============================================================================
