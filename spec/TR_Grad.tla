------------------------------ MODULE TR_Grad ------------------------------
(***************************************************************************)
(* Trace validation of automatic derivatives: the driver asks the real     *)
(* code for the derivative of a quantity along a direction (forward mode)  *)
(* and for the gradient of a combination of its entries (reverse mode).    *)
(***************************************************************************)
EXTENDS Gradient, TraceBase
Begin == IsOp("begin") /\ Step({}, << >>)

Consts ==
    LET c == Ev.in.c IN
    [k \in DOMAIN c |-> IF k \in {"n", "kind", "law"} THEN c[k] ELSE NDeep(c[k])]

\* relative accuracy promised, and float noise of the quantity in absolute terms
RelTol(q) == IF q \in {"distance", "obsmag", "halo"} THEN N("2e-3") ELSE N("1e-6")
Noise(q, x, c) ==
    CASE q \in {"age", "sed_ln", "sed_mt"} ->
         \* a small share of mass in the age grid costs digits
         LET to == x[Len(x)]
             h == History(c.t, Cut(x, 1, c.n), c.smin)
             tot == VSum(MassInAgeBins(h, c.lgage, to))
         IN N("1e-8") ++ (N("1e-12") ** (MassBy(h, to) // tot))
      [] OTHER -> N("1e-8")
\* the quantity is far enough from 0/0 for floats to have a derivative
Resolved(q, x, c) ==
    CASE q \in {"age", "sed_ln", "sed_mt"} ->
         LET h == History(c.t, Cut(x, 1, c.n), c.smin)
             tot == VSum(MassInAgeBins(h, c.lgage, x[Len(x)]))
         IN /\ NGt(c.t[1], TBirthMin)         \* before which there is no mass, nor its logarithm
            /\ NGt(tot, N("1e-4") ** MassBy(h, x[Len(x)]))
            /\ q = "sed_ln" => NGt(MdfCaught(x[c.n + 1], x[c.n + 2], c.lgmets), N("1e-2"))
            /\ q = "sed_mt" => LET z == LgMetOfAges(h.lgt, Cut(x, c.n + 1, 2 * c.n), c.lgage, x[Len(x)]) IN
                 \A j \in 1..Len(z) : NGt(MdfCaught(z[j], x[2 * c.n + 1], c.lgmets), N("1e-2"))
      [] q \in {"burst", "burst_u"} ->
         LET p == IF q = "burst" THEN x ELSE P!Bound("burst", x)
             near(a) == NAbs((a ++ N("9")) -- p[2]) // (p[3] -- p[2])
         IN (\E i \in 1..Len(c.lgage) : NLt(near(c.lgage[i]), N("0.9")))
            \/ (\A i \in 1..Len(c.lgage) : NGt(near(c.lgage[i]), N("1.001")))
      [] q = "mdf" -> NGt(MdfCaught(x[1], x[2], c.lgmets), N("1e-2"))
                      \/ NEq(MdfCaught(x[1], x[2], c.lgmets), Zero)
      [] q \in {"restmag", "kmag", "obsmag"} ->
         LET sed == IF q = "restmag" THEN x ELSE IF q = "kmag" THEN Cut(x, 1, c.n) ELSE c.sed
             z == IF q = "restmag" THEN Zero ELSE IF q = "kmag" THEN x[c.n + 1] ELSE x[1]
         IN NGt(RelFlux(c.ws, sed, c.wf, c.tf, One ++ z), Zero) /\ ~OnTheEdge(c.ws, c.wf, One ++ z)
      [] q = "ew" ->
         LET pts == Ln!Pick(c.w, x, c.g) IN
         /\ Ln!Fittable(pts)
         /\ LET fit == TLCEval(Ln!QuadFit(pts)) IN
            /\ NGt(fit.det, N("1e-5"))
            /\ NGt(N("30") ** fit.half, NAbs(fit.mid))
            /\ NGt(N("1e3") ** NAbs(Ln!At(fit, c.g[2])), MaxOf([i \in 1..Len(x) |-> NAbs(x[i])]))
      [] q = "unbound" ->
         \A i \in 1..Len(x) : LET lo == P!Lo(c.kind, x, i) hi == P!Hi(c.kind, x, i) IN
            /\ NGt(x[i] -- lo, N("1e-4") ** (hi -- lo))
            /\ NGt(hi -- x[i], N("1e-4") ** (hi -- lo))
      [] OTHER -> TRUE

Grad ==
    /\ IsOp("grad")
    /\ LET q == Ev.in.q x == In(Ev.in.x) d == In(Ev.in.d) v == In(Ev.in.v) c == Consts
           finite == F("every component of the gradient is finite", Ev.out.finite)
       IN Step(IF ~Resolved(q, x, c) THEN Silent("unresolved") ELSE Returned(Ev,
            LET mid == TLCEval(Quantity(q, x, c)) IN
            F("gradient has the shape of the parameters",
              Ev.out.g.sh = <<Len(x)>> /\ Ev.out.dy.sh = <<Len(mid)>>)
            \cup finite
            \cup (IF ~Ev.out.finite THEN {} ELSE IF AtTheEnd(q, x, d) THEN
              LET want == Inward(q, x, d, c, mid)
                  other == Outward(q, x, d, c, mid)
                  half == TLCEval([i \in 1..Len(want) |-> IF NEq(want[i], Zero) THEN other[i] ELSE (want[i] ++ other[i]) // Two])
                  dy == Out(Ev.out.dy) g == Out(Ev.out.g)
                  Within(a, lo, hi, tol) == NLe(NMin(lo, hi) -- tol, a) /\ NLe(a, NMax(lo, hi) ++ tol)
                  gmid == VSum([i \in 1..Len(want) |-> v[i] ** ((half[i] ++ want[i]) // Two)])
                  gtol == VSum([i \in 1..Len(want) |-> NAbs(v[i]) ** (N("1e-8") ++
                             (N("0.50001") ** NAbs(want[i] -- half[i])))])
              IN F("with no dust the derivative is the one towards dust",
                   \A i \in 1..Len(want) : Within(dy[i], half[i], want[i], N("1e-8") ++ (N("1e-6") ** NAbs(want[i]))))
                 \cup F("with no dust the reverse gradient is the one towards dust",
                   Close(VDot(g, d), gmid, Zero, gtol))
              ELSE IF ~Smooth(q, x, d, c, mid) THEN Silent("kink: only finiteness judged") ELSE
              LET want == Derivative(q, x, d, c)
                  dy == Out(Ev.out.dy) g == Out(Ev.out.g)
                  rel == RelTol(q) noise == Noise(q, x, c)
                  dtop == MaxOf([i \in 1..Len(want) |-> NAbs(want[i])])
                  mtop == MaxOf([i \in 1..Len(mid) |-> NAbs(mid[i])])
                  atol == TLCEval([i \in 1..Len(want) |->
                     IF q \in {"blackbody", "dust"} THEN N("1e-290") ++ (N("1e-8") ** NAbs(mid[i]))
                     ELSE IF q \in {"distance", "halo"} THEN N("1e-3") ** NAbs(mid[i])
                     ELSE IF q = "obsmag" THEN N("2e-3")
                     ELSE IF q = "ew" THEN
                       \* flux, width, continuum: each against its own magnitude
                       LET top == MaxOf([k \in 1..Len(x) |-> NMax(NAbs(x[k]), NAbs(d[k]))])
                           span == NAbs(c.g[3] -- c.g[1])
                           r == top // NAbs(mid[3])
                       IN N("1e-6") ** (IF i = 3 THEN top ELSE IF i \in {1, 4} THEN span ** top
                                        ELSE span ** (r ** (One ++ r)))
                     ELSE (noise ** (mtop ++ dtop))])
                  wantg == VSum([i \in 1..Len(want) |-> v[i] ** want[i]])
                  tolg == VSum([i \in 1..Len(want) |->
                             NAbs(v[i]) ** (atol[i] ++ (rel ** NAbs(want[i])))])
              IN F("forward derivative is the derivative of the specified quantity",
                   \A i \in 1..Len(want) : Close(dy[i], want[i], rel, atol[i]))
                 \cup F("reverse gradient is the derivative of the specified quantity",
                   Close(VDot(g, d), wantg, Zero, tolg ++ (N("1e-10") ** VSum([i \in 1..Len(g) |-> NAbs(g[i] ** d[i])])))))),
          st)

TraceNext == Begin \/ Grad
TraceSpec == TraceStart(<< >>) /\ [][TraceNext]_traceVars
=============================================================================
