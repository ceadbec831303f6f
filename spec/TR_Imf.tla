------------------------------- MODULE TR_Imf -------------------------------
(* Trace validation of surviving and remnant mass fractions. *)
EXTENDS Imf, TraceBase
Empty == [surv |-> [i \in Imfs |-> << >>]]
Begin == IsOp("begin") /\ Step({}, Empty)
E11 == N("1e-11")
E12 == N("1e-12")

\* the named IMFs, "" (no parameters given) meaning Chabrier
Named ==
    /\ IsOp("imf")
    /\ LET a == In(Ev.in.lga) imf == IF Ev.in.imf = "" THEN "chabrier" ELSE Ev.in.imf
           ps == SurvivingPars(imf) pr == RemnantPars(imf)
           sh == IF Ev.in.scalar THEN << >> ELSE <<Len(a)>> IN
       Step(Returned(Ev,
            Shaped("surviving fraction", Ev.out.s, sh,
              LET s == IF Ev.in.scalar THEN <<N(Ev.out.s.v)>> ELSE Out(Ev.out.s) IN
              F("surviving fraction follows the fit of its IMF",
                \A i \in 1..Len(a) : Close(s[i], Surviving(a[i], ps), E12, E12))
              \cup F("surviving fraction is a fraction", \A i \in 1..Len(a) : NGt(s[i], Zero) /\ NLe(s[i], One))
              \cup F("surviving fraction never increases after the first million years",
                \A i, j \in 1..Len(a) : (NGe(a[i], N("6")) /\ NLe(a[i], a[j])) => NGe(s[i], s[j] -- N("1e-15")))
              \cup F("surviving fraction never increases between calls",
                \A b \in 1..Len(st.surv[imf]) : \A i \in 1..Len(a) :
                   LET o == st.surv[imf][b] IN
                   (NGe(o[1], N("6")) /\ NLe(o[1], a[i])) => NGe(o[2], s[i] -- N("1e-15"))))
            \cup Shaped("remnant fraction", Ev.out.r, sh,
              LET r == IF Ev.in.scalar THEN <<N(Ev.out.r.v)>> ELSE Out(Ev.out.r) IN
              F("remnant fraction follows the fit of its IMF",
                \A i \in 1..Len(a) : Close(r[i], Remnant(a[i], pr), E11 ** (One ++ NAbs(LgRemnant(a[i], pr))), Zero)))),
            IF Ev.out.err = "" /\ ~Ev.in.scalar
            THEN [st EXCEPT !.surv[imf] = Append(@, <<a[1], Out(Ev.out.s)[1]>>)] ELSE st)
\* any parameters
AnyFit ==
    /\ IsOp("fit")
    /\ LET a == In(Ev.in.lga) ps == In(Ev.in.ps) pr == In(Ev.in.pr) IN
       Step(Returned(Ev,
            Shaped("surviving fraction", Ev.out.s, <<Len(a)>>,
              F("surviving fraction follows its formula",
                \A i \in 1..Len(a) : Close(Out(Ev.out.s)[i], Surviving(a[i], ps), E11, E11)))
            \cup Shaped("remnant fraction", Ev.out.r, <<Len(a)>>,
              F("remnant fraction follows its formula",
                \A i \in 1..Len(a) : Close(Out(Ev.out.r)[i], Remnant(a[i], pr),
                      E11 ** (One ++ NAbs(LgRemnant(a[i], pr))), N("1e-290"))))), st)
TraceNext == Begin \/ Named \/ AnyFit
TraceSpec == TraceStart(Empty) /\ [][TraceNext]_traceVars
=============================================================================
