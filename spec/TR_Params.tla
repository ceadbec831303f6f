----------------------------- MODULE TR_Params -----------------------------
(* Trace validation of bounded parameters and the mass-metallicity relation. *)
EXTENDS Params, TraceBase
\* st.last: last bounding of each kind; st.ran: draws seen so far by key and bounds
Empty == [last |-> [burst |-> << >>, mzr |-> << >>], ran |-> << >>]
Begin == IsOp("begin") /\ Step({}, Empty)
E10 == N("1e-10")
E12 == N("1e-12")

Saturated(kind, u) == \E i \in 1..Len(u) : NGt(NAbs(u[i]), N("230"))
\* bounding: unbounded -> bounded
MovedUp(kind, u, p) ==
    st.last[kind] # << >> =>
      LET u0 == st.last[kind][1] p0 == st.last[kind][2]
          w == Bound(kind, u) w0 == Bound(kind, u0) IN
      \A i \in 1..Len(u) :
        ((\A j \in 1..Len(u) : j # i => NEq(u[j], u0[j])) /\ NGe(u[i], u0[i])) =>
          /\ NGe(p[i], p0[i] -- (N("1e-14") ** NAbs(p0[i])))
          \* strictly where doubles can tell the two apart
          /\ NGt(w[i] -- w0[i], N("1e-12") ** (One ++ NAbs(w0[i]))) => NGt(p[i], p0[i])
BoundClauses(kind, u, p) ==
    LET want == Bound(kind, u) IN
    F("bounded parameters are the sigmoids of the unbounded ones",
      \A i \in 1..Len(p) : Close(p[i], want[i], Zero, E12))
    \cup F("bounded parameters respect their bounds",
      \A i \in 1..Len(p) : NGe(p[i], Lo(kind, p, i) -- E12) /\ NLe(p[i], Hi(kind, p, i) ++ E12))
    \cup F("a larger unbounded value gives a larger parameter", MovedUp(kind, u, p))
DoBound ==
    /\ IsOp("bound")
    /\ LET u == In(Ev.in.u) k == Ev.in.kind IN
       Step(Returned(Ev, Shaped("bounded parameters", Ev.out.p, <<Len(u)>>,
              BoundClauses(k, u, Out(Ev.out.p)))
              \cup F("parameters keep their names and order", Ev.out.names = Ev.in.names)),
            IF Ev.out.err = "" THEN [st EXCEPT !.last[k] = <<u, Out(Ev.out.p)>>] ELSE st)
\* unbounding, where the exact inverse exists
DoUnbound ==
    /\ IsOp("unbound")
    /\ LET p == In(Ev.in.p) k == Ev.in.kind IN
       Step(IF Inside(k, p)
            THEN Returned(Ev, Shaped("unbounded parameters", Ev.out.u, <<Len(p)>>,
              LET u == Out(Ev.out.u) want == Unbound(k, p) tol == UnboundTols(k, p) IN
              F("unbounded parameters are the inverse sigmoids of the bounded ones",
                \A i \in 1..Len(u) : Close(u[i], want[i], E12, tol[i])))
              \cup F("parameters keep their names and order", Ev.out.names = Ev.in.names))
            ELSE Silent("on a bound: there is no inverse"), st)
\* there and back, started from either side
DoRound ==
    /\ IsOp("round")
    /\ LET k == Ev.in.kind IN
       Step(Returned(Ev,
         IF Ev.in.from = "u"
         THEN LET u == In(Ev.in.x) b == Out(Ev.out.x) p == Bound(k, u) tol == UnboundTols(k, p) IN
              F("bounding then unbounding returns the starting point",
                \A i \in 1..Len(u) : NLt(tol[i], N("0.001")) => Close(b[i], u[i], E12, tol[i]))
         ELSE LET p == In(Ev.in.x) b == Out(Ev.out.x) IN
              F("unbounding then bounding returns the starting point",
                Inside(k, p) => \A i \in 1..Len(p) : Close(b[i], p[i], Zero, E10))), st)
\* the shipped defaults, each given in both forms
DoDefaults ==
    /\ IsOp("defaults")
    /\ Step(Returned(Ev,
         LET p == Out(Ev.out.p) u == Out(Ev.out.u) k == Ev.in.kind want == Bound(k, u) IN
         F("the defaults are inside their bounds", Inside(k, p))
         \cup F("the default unbounded parameters bound to the default parameters",
             \A i \in 1..Len(p) : Close(want[i], p[i], Zero, N("1e-5")))), st)
\* random z = 0 mass-metallicity parameters
DoRan ==
    /\ IsOp("mzr_ran")
    /\ LET b == In(Ev.in.bounds) key == <<Ev.in.seed, Ev.in.bounds>> IN
       Step(Returned(Ev, Shaped("random parameters", Ev.out.p, <<Len(b)>>,
         LET p == Out(Ev.out.p) IN
         F("random parameters lie inside the bounds asked for",
           \A i \in 1..Len(b) : NGe(p[i], b[i][1]) /\ NLe(p[i], b[i][2]))
         \cup F("the same key draws the same parameters",
           \A r \in 1..Len(st.ran) : st.ran[r][1] = key => st.ran[r][2] = p)
         \cup F("another key draws other parameters",
           \A r \in 1..Len(st.ran) : (st.ran[r][1][1] # Ev.in.seed /\ st.ran[r][1][2] = Ev.in.bounds)
                                     => st.ran[r][2] # p))),
         IF Ev.out.err = "" THEN [st EXCEPT !.ran = Append(@, <<key, Out(Ev.out.p)>>)] ELSE st)

(* ---- mass-metallicity relation ------------------------------------------ *)
DoMzr ==
    /\ IsOp("mzr")
    /\ LET m == In(Ev.in.lgm) t == In(Ev.in.t) p == In(Ev.in.p) impl == Ev.in.impl
           what == Ev.in.what
           want(i) == IF what = "t0" THEN MzrModelT0(impl, m[i], p)
                      ELSE LET z == MzrModel(impl, m[i], t[i], p) IN
                           IF what = "model" THEN z ELSE z -- MzrModelT0(impl, m[i], p)
       IN Step(Returned(Ev, Shaped("metallicity", Ev.out.z, <<Len(m)>>,
            LET z == Out(Ev.out.z) IN
            (IF what = "t0" THEN
               F("the z=0 relation is its documented rolling line",
                 \A i \in 1..Len(m) : Close(z[i], want(i), E10, E10))
             ELSE IF what = "evol" THEN
               F("the evolution is the documented rolling line in lookback time, capped at zero",
                 \A i \in 1..Len(m) : Close(z[i], want(i), E10, E10))
               \cup F("evolution never raises the metallicity", \A i \in 1..Len(m) : NLe(z[i], Zero))
             ELSE
               F("the model is the z=0 relation plus the evolution",
                 \A i \in 1..Len(m) : Close(z[i], want(i), E10, E10))))), st)
DoMaiolino ==
    /\ IsOp("maiolino")
    /\ LET m == In(Ev.in.lgm) IN
       Step(Returned(Ev, Shaped("metallicity", Ev.out.z, <<Len(m)>>,
         LET z == Out(Ev.out.z) IN
         F("the observed relation is its quadratic in log mass",
           \A i \in 1..Len(m) : Close(z[i], Maiolino(m[i], N(Ev.in.m0), N(Ev.in.k0)), E10, E10)))), st)

TraceNext == Begin \/ DoBound \/ DoUnbound \/ DoRound \/ DoDefaults \/ DoRan \/ DoMzr \/ DoMaiolino
TraceSpec == TraceStart(Empty) /\ [][TraceNext]_traceVars
=============================================================================
