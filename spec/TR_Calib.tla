------------------------------ MODULE TR_Calib ------------------------------
(* Trace validation of the shipped calibrations: st is the set of rows read. *)
EXTENDS Calib, TraceBase
Begin == IsOp("begin") /\ Step({}, {})
E12 == N("1e-12")
DoRead ==
    /\ IsOp("read")
    /\ LET row == The(Shipped, Ev.in.where[1], Ev.in.where[2]) IN
       Step(Returned(Ev,
            F("the calibration's entries are named and ordered as documented", row[3] = << >> \/ Ev.out.keys = row[3])
            \cup F("the calibration has its documented values",
                   Len(Ev.out.v) = Len(row[4]) /\ \A k \in 1..Len(row[4]) : Close(N(Ev.out.v[k]), N(row[4][k]), E12, Zero))),
            st \cup {Ev.in.where})
DoFields ==
    /\ IsOp("fields")
    /\ Step(Returned(Ev, F("the record's entries are named and ordered as documented",
                           Ev.out.f = The(Records, Ev.in.where[1], Ev.in.where[2])[3])), st \cup {Ev.in.where})
DoText ==
    /\ IsOp("text")
    /\ Step(Returned(Ev, F("the default names are the documented ones",
                           Ev.out.t = The(Names, Ev.in.where[1], Ev.in.where[2])[3])), st \cup {Ev.in.where})
\* Ev.in.where: the calibration documented to be the default
DoUse ==
    /\ IsOp("use")
    /\ Step(F("the driver asks about a documented default",
              \E i \in 1..Len(Uses) : Uses[i] = <<Ev.in.fn[1], Ev.in.fn[2], Ev.in.where[2]>>)
            \cup Returned(Ev, F("without optional arguments the documented calibration is used",
                     Close(N(Ev.out.without), N(Ev.out.with), E12, Zero))), st)
\* Ev.in.where: the bounds parameters are drawn within; they stay what they are
DoDraw ==
    /\ IsOp("draw")
    /\ LET b == NDeep(The(Shipped, Ev.in.where[1], Ev.in.where[2])[4]) IN
       Step(Returned(Ev, F("parameters are drawn within the documented bounds",
                /\ 2 * Len(Ev.out.p) = Len(b)
                /\ \A k \in 1..Len(Ev.out.p) : NLe(b[2 * k - 1], N(Ev.out.p[k])) /\ NLe(N(Ev.out.p[k]), b[2 * k]))), st)
TraceNext == DoDraw \/ Begin \/ DoRead \/ DoFields \/ DoText \/ DoUse
TraceSpec == TraceStart({}) /\ [][TraceNext]_traceVars
=============================================================================
