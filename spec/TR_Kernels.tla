----------------------------- MODULE TR_Kernels -----------------------------
(* Trace validation of the numerical building blocks. *)
EXTENDS Kernels, TraceBase
Empty == [n |-> 0]
Begin == IsOp("begin") /\ Step({}, Empty)
E10 == N("1e-10")
E12 == N("1e-12")
E14 == N("2e-14")

Triweight ==
    /\ IsOp("tw")
    /\ LET x == In(Ev.in.x) m == N(Ev.in.m) h == N(Ev.in.h) n == Len(x)
           p == In(Ev.in.p)     \* xtp ytp lo hi
           z == TLCEval([i \in 1..n |-> (x[i] -- m) // h])
           \* rounding of x - m moves z
           dz == TLCEval([i \in 1..n |-> N("1e-15") ** ((NAbs(x[i]) ++ NAbs(m)) // h)])
           amp == NAbs(p[3]) ++ NAbs(p[4])
       IN Step(Returned(Ev,
            Shaped("cumulative triweight", Ev.out.c, <<n>>,
              F("cumulative triweight is its polynomial",
                \A i \in 1..n : Close(Out(Ev.out.c)[i], TwCdf(z[i]), Zero, E14 ++ dz[i])))
            \cup Shaped("triweight density", Ev.out.g, <<n>>,
              F("triweight density is its polynomial",
                \A i \in 1..n : Close(Out(Ev.out.g)[i], TwGaussian(x[i], m, h), E12, (E14 ++ dz[i]) // h)))
            \cup Shaped("triweight sigmoid", Ev.out.s, <<n>>,
              F("triweight sigmoid goes from lo to hi",
                \A i \in 1..n : Close(Out(Ev.out.s)[i], TwSigmoid(x[i], m, h, p[3], p[4]), E14, amp ** (E14 ++ dz[i]))))
            \cup Shaped("triweight rolling line", Ev.out.l, <<n>>,
              F("triweight rolling line",
                \A i \in 1..n : Close(Out(Ev.out.l)[i], TwSigSlope(x[i], p[1], p[2], m, h, p[3], p[4]), E12,
                   E12 ++ ((amp ** (E14 ++ dz[i])) ** (One ++ NAbs(x[i] -- p[1]))))))), st)

Logistic ==
    /\ IsOp("sig")
    /\ LET x == In(Ev.in.x) x0 == N(Ev.in.x0) k == N(Ev.in.k) p == In(Ev.in.p) n == Len(x)
           amp == NAbs(p[3]) ++ NAbs(p[4])
           rel == TLCEval([i \in 1..n |-> N("1e-14") ** (One ++ NAbs(k ** (NAbs(x[i]) ++ NAbs(x0))))])
           y == TLCEval([i \in 1..n |-> Sigmoid(x[i], x0, k, p[3], p[4])])
           \* the inverse: lost digits when y is near a bound
           gap == TLCEval([i \in 1..n |-> NMin(NAbs(y[i] -- p[3]), NAbs(p[4] -- y[i]))])
       IN Step(Returned(Ev,
            Shaped("sigmoid", Ev.out.s, <<n>>,
              F("sigmoid is the logistic function from lo to hi",
                \A i \in 1..n : Close(Out(Ev.out.s)[i], y[i], Zero, amp ** (E14 ++ NMin(rel[i], N("0.01"))))))
            \cup Shaped("rolling line", Ev.out.l, <<n>>,
              F("rolling line is straight with slopes lo and hi",
                \A i \in 1..n : Close(Out(Ev.out.l)[i], SigSlope(x[i], p[1], p[2], x0, k, p[3], p[4]), E12,
                   E12 ++ ((amp ** (E14 ++ NMin(rel[i], N("0.01")))) ** (One ++ NAbs(x[i] -- p[1]))))))
            \cup Shaped("inverse sigmoid", Ev.out.i, <<Len(Ev.in.f)>>,
              F("inverse sigmoid undoes the sigmoid",
                \A i \in 1..Len(Ev.in.f) :
                   LET f == N(Ev.in.f[i]) yy == N(Ev.in.y[i])
                       want == InvSigmoid(yy, x0, k, p[3], p[4])
                       frac == NMin(NAbs(yy -- p[3]), NAbs(p[4] -- yy)) // (amp ++ NAbs(yy))
                   IN (NGt(frac, N("1e-13"))) =>
                      Close(Out(Ev.out.i)[i], want, E12,
                         (N("1e-14") // frac) // NAbs(k) ++ (N("1e-13") ** NAbs(x0)))))), st)

Histogram ==
    /\ IsOp("hist")
    /\ LET x == TLCEval(In(Ev.in.x)) s == TLCEval(N(Ev.in.sig)) e == TLCEval(In(Ev.in.edges))
           want == TLCEval(TwHistogram(x, s, e))
           nb == Len(e) - 1
           far == TLCEval(MaxOf([i \in 1..Len(e) |-> NAbs(e[i])]))
           tols == TLCEval([j \in 1..Len(x) |-> E14 ++ (N("1e-15") ** ((NAbs(x[j]) ++ far) // s))])
           tol(j) == tols[j]
       IN Step(Returned(Ev,
            Shaped("histogram", Ev.out.h, <<nb, Len(x)>>,
              LET h == TLCEval(Out(Ev.out.h)) IN
              F("histogram column is the kernel mass between the edges",
                \A i \in 1..nb : \A j \in 1..Len(x) : Close(h[i][j], want[i][j], Zero, Two ** tol(j)))
              \cup F("histogram column sums to the mass on the grid",
                \A j \in 1..Len(x) : Close(VSum([i \in 1..nb |-> h[i][j]]),
                   TwCdf((x[j] -- e[1]) // s) -- TwCdf((x[j] -- e[nb + 1]) // s), Zero, N(nb + 2) ** tol(j))))
            \cup Shaped("single-point weights", Ev.out.w, <<nb>>,
              LET w == TLCEval(Out(Ev.out.w)) caught == TLCEval(VSum(TwShares(x[1], s, e)))
                  off == NLt(x[1], e[1] -- (N("3.001") ** s)) \/ NGt(x[1], e[nb + 1] ++ (N("3.001") ** s)) IN
              F("single-point weights are the normalised histogram",
                (NGt(caught, N("1e-6")) \/ off) =>
                  AllClose(w, TLCEval(MdfOnEdges(x[1], s, e)), N("1e-8"),
                           N("10") ** (tol(1) // NMax(caught, N("1e-6"))))))), st)

Grid ==
    /\ IsOp("bins")
    /\ LET m == TLCEval(In(Ev.in.m)) lo == N(Ev.in.lo) hi == N(Ev.in.hi)
           size == TLCEval(MaxOf([i \in 1..Len(m) |-> NAbs(m[i])])) tol == N("1e-14") ** size IN
       Step(Returned(Ev,
            Shaped("bin widths", Ev.out.d, <<Len(m)>>,
              F("bin widths are half the distance of the neighbours", AllClose(TLCEval(Out(Ev.out.d)), TLCEval(Widths(m)), E14, tol)))
            \cup Shaped("bin edges", Ev.out.e, <<Len(m) + 1>>,
              F("bin edges lie half a width below their points, ends as given",
                LET oe == TLCEval(Out(Ev.out.e)) IN AllClose(oe, TLCEval(BinEdges(m, lo, hi)), E14, tol)
                /\ NEq(oe[1], lo) /\ NEq(oe[Len(m) + 1], hi)))), st)

Integral ==
    /\ IsOp("integ")
    /\ LET x == TLCEval(In(Ev.in.x)) y == TLCEval(In(Ev.in.y)) n == Len(x)
           a == TLCEval(CumAbs(x, y)) c == TLCEval(CumTrapz(x, y))
           \* differences of close x lose digits
           size == MaxOf([i \in 1..n |-> NAbs(x[i])]) ** MaxOf([i \in 1..n |-> NAbs(y[i])])
           tol(i) == (N("1e-13") ** a[i]) ++ (N("1e-15") ** (N(n) ** size)) IN
       Step(Returned(Ev,
            Shaped("running integral", Ev.out.c, <<n>>,
              LET oc == TLCEval(Out(Ev.out.c)) IN F("running integral is the sum of trapezoids so far",
                \A i \in 1..n : Close(oc[i], c[i], Zero, N("1e-13") ** a[i] ++ N("1e-300"))))
            \cup F("integral is the sum of trapezoids", Close(N(Ev.out.t), c[n], Zero, N("1e-13") ** a[n] ++ N("1e-300")))), st)

\* item b of the batch is the product of the b-th rows
Outer ==
    /\ IsOp("outer")
    /\ LET u == In(Ev.in.a) v == In(Ev.in.b) w == In(Ev.in.c)
           nb == Len(u) nu == Len(u[1]) nv == Len(v[1]) nw == Len(w[1]) IN
       Step(Returned(Ev,
            Shaped("weight products", Ev.out.d2, <<nb, nu, nv>>,
              LET d == Out(Ev.out.d2) IN
              F("entry (b, i, j) is the product of the b-th weights i and j",
                \A b \in 1..nb : \A i \in 1..nu : \A j \in 1..nv : Close(d[b][i][j], u[b][i] ** v[b][j], E14, Zero)))
            \cup Shaped("triple weight products", Ev.out.d3, <<nb, nu, nv, nw>>,
              LET d == Out(Ev.out.d3) IN
              F("entry (b, i, j, k) is the product of the b-th weights i, j and k",
                \A b \in 1..nb : \A i \in 1..nu : \A j \in 1..nv : \A k \in 1..nw :
                   Close(d[b][i][j][k], (u[b][i] ** v[b][j]) ** w[b][k], E14, Zero)))), st)

PowerLaw ==
    /\ IsOp("plaw")
    /\ LET x == In(Ev.in.x) a == In(Ev.in.a) b == In(Ev.in.b) g == In(Ev.in.g) n == Len(x)
           u == In(Ev.in.u)
           \* digits lost in b^g - a^g
           loss(i) == (NPow(a[i], g[i]) ++ NPow(b[i], g[i])) // NAbs(NPow(b[i], g[i]) -- NPow(a[i], g[i]))
           rel(i) == N("1e-13") ** (One ++ loss(i))
           k == Ev.in.one + 1 IN
       Step(Returned(Ev,
            Shaped("power-law density", Ev.out.p, <<n>>,
              F("power-law density is g x^(g-1) / (b^g - a^g)",
                \A i \in 1..n : Close(Out(Ev.out.p)[i], PowerPdf(x[i], a[i], b[i], g[i]), rel(i), Zero)))
            \cup Shaped("one power law at many points", Ev.out.o, <<n>>,
              F("one power law at many points has the same density",
                \A i \in 1..n : Close(Out(Ev.out.o)[i], PowerPdf(x[i], a[k], b[k], g[k]), rel(k), Zero)))
            \cup F("one power law at one point has the same density",
                  Close(N(Ev.out["1"]), PowerPdf(x[k], a[k], b[k], g[k]), rel(k), Zero))
            \cup Shaped("power-law draws", Ev.out.r, <<n>>,
              LET r == Out(Ev.out.r) IN
              F("power-law draws lie between a and b",
                \A i \in 1..n : NGe(r[i], a[i] ** (One -- N("1e-11"))) /\ NLe(r[i], b[i] ** (One ++ N("1e-11"))))
              \cup F("power-law draws are the inverse cumulative function of uniform draws",
                \A i \in 1..n : Close(r[i], PowerInv(u[i], a[i], b[i], g[i]),
                     N("1e-11") // NMin(One, NAbs(g[i])), Zero)))), st)

\* tables for integrating a history up to t0
TimeTables ==
    /\ IsOp("timetab")
    /\ LET t0 == N(Ev.in.t0) IN
       Step(Returned(Ev,
            LET t == Out(Ev.out.t) n == Len(t) IN
            F("time tables have one length", n >= 3 /\ Ev.out.lgt.sh = <<n>> /\ Ev.out.dt.sh = <<n>>)
            \cup (IF n < 3 THEN {} ELSE
            F("time runs evenly from the first births to the given age",
              \A i \in 1..n : Close(t[i], TBirthMin ++ ((t0 -- TBirthMin) ** (N(i - 1) // N(n - 1))), E12, E14))
            \cup F("logarithms of the times", \A i \in 1..n : Close(Out(Ev.out.lgt)[i], NLog10(t[i]), E12, E12))
            \cup F("durations are half the distance of the neighbours",
                   AllClose(Out(Ev.out.dt), Widths(t), E12, E14 ** t0)))), st)

TraceNext == Begin \/ TimeTables \/ Triweight \/ Logistic \/ Histogram \/ Grid \/ Integral \/ Outer \/ PowerLaw
TraceSpec == TraceStart(Empty) /\ [][TraceNext]_traceVars
=============================================================================
