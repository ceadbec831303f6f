------------------------------ MODULE TR_Dust ------------------------------
(* Trace validation of reddening curves, attenuation, transmission and the
   blackbody. *)
EXTENDS Dust, Blackbody, TraceBase
\* st.seen: transmissions through each curve and floor so far
\* st.bb: blackbody densities so far, by place
Empty == [seen |-> << >>, bb |-> << >>]
Begin == IsOp("begin") /\ Step({}, Empty)
E10 == N("1e-10")
E12 == N("1e-12")
Tiny == N("1e-290")

\* parameters of the law as called: empty means the defaults
ParOf(law, p) ==
    IF law = "triweight" THEN (IF p = << >> THEN TwDefault ELSE NDeep(p))
    ELSE IF law \in {"noll", "salim"}
         THEN (IF Len(p) = 2 THEN NDeep(p) \o BumpDefault ELSE NDeep(p))
         ELSE << >>
\* float error of a curve scales with the terms it is the sum of
Size(law, w, p) ==
    LET y == One // w
        poly == N("20") ** (One ++ (y ** (One ++ (y ** (One ++ y)))))
    IN IF law \in {"noll", "salim"}
       THEN (poly ** NMax(One, PowerLaw(w, p[2], VBand)))
              ++ NAbs(Drude(w, p[3], p[4], p[1]) ** NMax(One, PowerLaw(w, p[2], VBand)))
       ELSE IF law = "triweight" THEN N("100") ** TriweightCurve(w, p)
       ELSE poly
\* out of range of the floats
Wild(x) == ~NIsFin(x) \/ NGt(x, N("1e150")) \/ NLt(x, N("1e-150"))

Curve ==
    /\ IsOp("dust")
    /\ LET law == Ev.in.law w == In(Ev.in.w) p == ParOf(law, Ev.in.p)
           av == N(Ev.in.av) floor == N(Ev.in.floor)
           k == TLCEval([i \in 1..Len(w) |-> Reddening(law, w[i], p)])
           tol == TLCEval([i \in 1..Len(w) |-> E12 ** Size(law, w[i], p)])
           key == <<law, Ev.in.p, Ev.in.w, Ev.in.floor>>
           wild == \E i \in 1..Len(w) : Wild(Size(law, w[i], p))
       IN Step(IF wild THEN Silent("terms of the curve outside 1e-150..1e150") ELSE Returned(Ev,
            Shaped("reddening curve", Ev.out.k, <<Len(w)>>,
            Shaped("attenuation", Ev.out.a, <<Len(w)>>,
            Shaped("transmission", Ev.out.t, <<Len(w)>>,
              LET ko == Out(Ev.out.k) a == Out(Ev.out.a) t == Out(Ev.out.t)
                  one == One ++ N("1e-14") IN
              F("reddening curve follows its formula",
                \A i \in 1..Len(w) : Close(ko[i], k[i], E12, tol[i]))
              \cup F("attenuation is av k / 4.05, not below zero",
                \A i \in 1..Len(w) :
                   /\ Close(a[i], Attenuation(k[i], av), E12, (av // RV) ** tol[i])
                   /\ NGe(a[i], Zero))
              \cup F("transmission is floor + (1 - floor) 10^(-0.4 A)",
                \A i \in 1..Len(w) :
                   LET at == Attenuation(k[i], av) IN
                   Close(t[i], Transmission(k[i], av, floor),
                         E12 ** (One ++ at),
                         ((One -- floor) ** NMin(One, (av ** tol[i]))) ++ Tiny))
              \cup F("transmission lies between floor and one",
                \A i \in 1..Len(w) : NGe(t[i], floor -- N("1e-14")) /\ NLe(t[i], one))
              \cup F("nothing is lost without dust",
                \A i \in 1..Len(w) : (NEq(av, Zero) \/ NLe(ko[i], Zero)) =>
                    Close(t[i], One, N("1e-14"), Zero))
              \cup F("more dust never lets more light through",
                \A q \in 1..Len(st.seen) : st.seen[q][1] = key =>
                   \A i \in 1..Len(w) :
                      /\ NLe(st.seen[q][2], av) => NLe(t[i], st.seen[q][3][i] ++ N("1e-15"))
                      /\ NGe(st.seen[q][2], av) => NGe(t[i], st.seen[q][3][i] -- N("1e-15")))
            )))),
            IF Ev.out.err = "" THEN [st EXCEPT !.seen = Append(@, <<key, av, Out(Ev.out.t)>>)] ELSE st)

\* transmission through any curve whatsoever
AnyCurve ==
    /\ IsOp("ftrans")
    /\ LET k == In(Ev.in.k) av == N(Ev.in.av)
           floor == IF Ev.in.floor = "" THEN Zero ELSE N(Ev.in.floor)
       IN Step(Returned(Ev,
            Shaped("transmission", Ev.out.t, <<Len(k)>>,
              LET t == Out(Ev.out.t) IN
              F("transmission is floor + (1 - floor) 10^(-0.4 A)",
                \A i \in 1..Len(k) :
                  Close(t[i], Transmission(k[i], av, floor),
                        E12 ** (One ++ Attenuation(k[i], av)), Tiny))
              \cup F("transmission lies between floor and one",
                \A i \in 1..Len(k) : NGe(t[i], floor -- N("1e-14")) /\ NLe(t[i], One ++ N("1e-14")))
              \cup F("nothing is lost without dust",
                \A i \in 1..Len(k) : (NEq(av, Zero) \/ NLe(k[i], Zero)) => Close(t[i], One, N("1e-14"), Zero)))
            \cup Shaped("attenuation", Ev.out.a, <<Len(k)>>,
              F("attenuation is av k / 4.05, not below zero",
                \A i \in 1..Len(k) : Close(Out(Ev.out.a)[i], Attenuation(k[i], av), E12, Zero)
                    /\ NGe(Out(Ev.out.a)[i], Zero)))), st)

\* the pieces the curves are made of
Pieces ==
    /\ IsOp("pieces")
    /\ LET w == In(Ev.in.w) slope == N(Ev.in.slope) v == N(Ev.in.v) b == In(Ev.in.bump)
           xc == N(Ev.in.xc) IN
       Step(Returned(Ev,
         F("power law is one at the V band",
           AllClose(Out(Ev.out.plaw), [i \in 1..Len(w) |-> PowerLaw(w[i], slope, v)],
                    N("1e-13") ** (One ++ NAbs(slope ** N("100"))), Zero))
         \cup F("bump is a Drude profile",
           AllClose(Out(Ev.out.drude), [i \in 1..Len(w) |-> Drude(w[i], b[1], b[2], b[3])], E10, Zero))
         \cup F("joined curve switches at the given wavelength",
           \A i \in 1..Len(w) : Close(Out(Ev.out.joined)[i], Joined(w[i], xc), E12,
                                      E12 ** Size("joined", w[i], << >>)))
         \cup F("bump strength falls with slope",
           Close(N(Ev.out.eb), BumpOfSlope(slope), E12, E12))), st)

(* ---- blackbody ----------------------------------------------------------- *)
\* e^-x loses x eps; x itself underflows or overflows only outside the floats
PlanckTol(x) == N("1e-12") ++ (N("1e-15") ** x)
Hot ==
    /\ IsOp("bb")
    /\ LET nu == In(Ev.in.nu) aa == In(Ev.in.aa) temp == N(Ev.in.temp) n == Len(nu)
           spots(seq, k) == {q \in 1..Len(seq) : seq[q][1] = k}
       IN Step(Returned(Ev,
            Shaped("frequency density", Ev.out.bnu, <<n>>,
            Shaped("wavelength density", Ev.out.blam, <<Len(aa)>>,
              LET bn == Out(Ev.out.bnu) bl == Out(Ev.out.blam) IN
              F("frequency density is Planck's law",
                \A i \in 1..n : Close(bn[i], BNu(nu[i], temp), PlanckTol(HNuOverKT(nu[i], temp)), Tiny))
              \cup F("wavelength density is Planck's law",
                \A i \in 1..Len(aa) : Close(bl[i], BLam(aa[i], temp),
                   PlanckTol(HNuOverKT(NuOfWave(aa[i]), temp)), Tiny))
              \cup F("never negative", (\A i \in 1..n : NGe(bn[i], Zero)) /\ (\A i \in 1..Len(aa) : NGe(bl[i], Zero)))
              \cup F("both densities carry the same energy",
                Ev.in.paired => \A i \in 1..n :
                   LET x == HNuOverKT(nu[i], temp) IN
                   NLt(x, N("650")) => Close(aa[i] ** bl[i], nu[i] ** bn[i],
                                             N("3") ** (PlanckTol(x) ++ (x ** N("1e-14"))), Tiny))
              \cup F("hotter is brighter",
                \A q \in spots(st.bb, <<Ev.in.nu, Ev.in.aa>>) :
                   (\A i \in 1..n : NLt(st.bb[q][2], temp) => NLe(st.bb[q][3][i], bn[i]))
                   /\ (\A i \in 1..Len(aa) : NLt(st.bb[q][2], temp) => NLe(st.bb[q][4][i], bl[i])))))),
            IF Ev.out.err = "" THEN [st EXCEPT !.bb = Append(@,
               <<<<Ev.in.nu, Ev.in.aa>>, temp, Out(Ev.out.bnu), Out(Ev.out.blam)>>)] ELSE st)

\* the spectrum is highest where the code says: lower a thousandth to either side
Wien ==
    /\ IsOp("wien")
    /\ LET temp == N(Ev.in.temp)
           lower == One -- N("1e-3")  upper == One ++ N("1e-3")
       IN Step(Returned(Ev,
            LET nu == N(Ev.out.nu) aa == N(Ev.out.m) ** AngstromPerMeter IN
            F("the frequency density peaks at the peak frequency",
              /\ NGt(nu, Zero)
              /\ NGt(BNu(nu, temp), BNu(nu ** lower, temp)) /\ NGt(BNu(nu, temp), BNu(nu ** upper, temp)))
            \cup F("the wavelength density peaks at the peak wavelength",
              /\ NGt(aa, Zero)
              /\ NGt(BLam(aa, temp), BLam(aa ** lower, temp)) /\ NGt(BLam(aa, temp), BLam(aa ** upper, temp)))), st)

TraceNext == Begin \/ Wien \/ Curve \/ AnyCurve \/ Pieces \/ Hot
TraceSpec == TraceStart(Empty) /\ [][TraceNext]_traceVars
=============================================================================
