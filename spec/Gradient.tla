------------------------------ MODULE Gradient ------------------------------
(***************************************************************************)
(* Directional derivatives of specified quantities.  A quantity is a       *)
(* function from a vector of parameters to a vector; its derivative at x   *)
(* along d is the limit of difference quotients, which in 45-digit         *)
(* arithmetic a step of 1e-14 gives to far more digits than a float has.   *)
(* Where the two one-sided derivatives differ the quantity has a kink and  *)
(* no derivative: there an implementation only has to stay finite.         *)
(***************************************************************************)
EXTENDS Galaxy, Photometry
P  == INSTANCE Params
Du == INSTANCE Dust
Bb == INSTANCE Blackbody
Im == INSTANCE Imf
Ke == INSTANCE Kernels
Ln == INSTANCE Lines

Along(x, d, e) == TLCEval([i \in 1..Len(x) |-> x[i] ++ (e ** d[i])])
StepC == N("1e-14")
StepK == N("1e-9")
Quotient(a, b, h) == TLCEval([i \in 1..Len(a) |-> (a[i] -- b[i]) // h])

Cut(x, i, j) == TLCEval([k \in 1..(j - i + 1) |-> x[i + k - 1]])
Joint2(wz, wa) == JointFromMarginals(wz, wa)
Flat(u) == IF Len(u) = 0 THEN << >> ELSE u

(* q names the quantity, x its parameters, c what stays constant *)
Quantity(q, x, c) ==
  CASE q = "mass" ->           \* sfr
         FormedMass(c.t, x)
    [] q = "mass_time" ->      \* times and sfr
         FormedMass(Cut(x, 1, c.n), Cut(x, c.n + 1, 2 * c.n))
    [] q = "age" ->            \* sfr, tobs
         AgeWeights(History(c.t, Cut(x, 1, c.n), c.smin), c.lgage, x[c.n + 1])
    [] q = "mdf" ->            \* centre, scatter
         MdfWeights(x[1], x[2], c.lgmets)
    [] q = "sed_ln" ->         \* sfr, centre, scatter, tobs
         LET h == History(c.t, Cut(x, 1, c.n), c.smin) IN
         Spectrum(MassBy(h, x[c.n + 3]),
                  JointFromMarginals(MdfWeights(x[c.n + 1], x[c.n + 2], c.lgmets),
                                     AgeWeights(h, c.lgage, x[c.n + 3])), c.flux)
    [] q = "sed_mt" ->         \* sfr, metallicities, scatter, tobs
         LET h == History(c.t, Cut(x, 1, c.n), c.smin) IN
         Spectrum(MassBy(h, x[2 * c.n + 2]),
                  JointFromTable(MetTableWeights(h.lgt, Cut(x, c.n + 1, 2 * c.n), x[2 * c.n + 1],
                                                 c.lgmets, c.lgage, x[2 * c.n + 2]),
                                 AgeWeights(h, c.lgage, x[2 * c.n + 2])), c.flux)
    [] q = "burst" ->          \* lgfburst, peak, max
         BurstyAgeWeights(x[1], x[2], x[3], c.smooth, c.lgage)
    [] q = "burst_u" ->        \* their unbounded counterparts
         LET p == P!Bound("burst", x) IN BurstyAgeWeights(p[1], p[2], p[3], c.smooth, c.lgage)
    [] q = "bound" ->          \* unbounded parameters of c.kind
         P!Bound(c.kind, x)
    [] q = "mzr" ->            \* parameters, lg mass, time
         <<P!MzrModel("umzr", x[10], x[11], Cut(x, 1, 9))>>
    [] q = "restmag" ->        \* sed
         <<RestMag(c.ws, x, c.wf, c.tf)>>
    [] q = "kmag" ->           \* sed, z
         <<KMag(c.ws, Cut(x, 1, c.n), c.wf, c.tf, x[c.n + 1])>>
    [] q = "obsmag" ->         \* z, cosmology
         <<ObsMag(c.ws, c.sed, c.wf, c.tf, x[1],
                  Modulus((One ++ x[1]) ** Comoving(x[1], Cut(x, 2, 5))))>>
    [] q = "distance" ->       \* z, cosmology
         LET u == Cut(x, 2, 5) IN
         <<Comoving(x[1], u), Modulus((One ++ x[1]) ** Comoving(x[1], u)), Lookback(x[1], u),
           AgeAt(x[1], u)>>
    [] q = "halo" ->           \* z, cosmology
         LET u == Cut(x, 2, 5) dc == Comoving(x[1], u) IN
         <<CritDensity(x[1], u), VirialTime(x[1], u), VolumeElement(dc, x[1], u),
           (One ++ x[1]) ** dc, dc // (One ++ x[1])>>
    [] q = "ew" ->             \* flux
         LET fit == TLCEval(Ln!QuadFit(Ln!Pick(c.w, x, c.g)))
             flux == Ln!LineFlux(c.w, x, c.g, fit) width == Ln!EqWidth(c.w, x, c.g, fit)
         IN <<flux, width, Ln!At(fit, c.g[2]), flux, width>>
    [] q = "unbound" ->        \* bounded parameters of c.kind
         P!Unbound(c.kind, x)
    [] q = "dust" ->           \* av, floor, then the curve's parameters
         TLCEval([i \in 1..Len(c.w) |->
            Du!Transmission(Du!Reddening(c.law, c.w[i], Cut(x, 3, Len(x))), x[1], x[2])])
    [] q = "blackbody" ->      \* temperature
         TLCEval([i \in 1..(2 * Len(c.nu)) |-> IF i <= Len(c.nu) THEN Bb!BNu(c.nu[i], x[1])
                                     ELSE Bb!BLam(Bb!NuOfWave(c.nu[i - Len(c.nu)]), x[1])])
    [] q = "surviving" ->      \* lg age, eight parameters
         <<Im!Surviving(x[1], Cut(x, 2, 9))>>
    [] q = "remnant" ->        \* lg age, five parameters
         <<Im!Remnant(x[1], Cut(x, 2, 6))>>
    [] q = "effwave" ->        \* z, transmissions
         <<EffWave(c.wf, Cut(x, 2, Len(x)), x[1])>>

Derivative(q, x, d, c) ==
    LET hi == TLCEval(Quantity(q, Along(x, d, StepC), c))
        lo == TLCEval(Quantity(q, Along(x, d, NNeg(StepC)), c))
    IN Quotient(hi, lo, Two ** StepC)
\* are the one-sided derivatives over a neighbourhood a float can tell apart the same?
Smooth(q, x, d, c, mid) ==
    LET hi == TLCEval(Quantity(q, Along(x, d, StepK), c))
        lo == TLCEval(Quantity(q, Along(x, d, NNeg(StepK)), c))
        r == TLCEval(Quotient(hi, mid, StepK))
        s == TLCEval(Quotient(mid, lo, StepK))
        top == MaxOf([i \in 1..Len(r) |-> NMax(NAbs(r[i]), NAbs(s[i]))])
    IN \A i \in 1..Len(r) : Close(r[i], s[i], N("1e-6"), N("1e-7") ** top)
(* At no dust the parameters end: the derivative is the one towards more     *)
(* dust, for which a derivative rule may also give the mean with the other   *)
(* side's; neither is zero where dust dims, so that dust can be fitted.      *)
(* Where the curve is negative, and so cut to no dust, either side's serves. *)
AtTheEnd(q, x, d) == q = "dust" /\ NEq(x[1], Zero) /\ ~NEq(d[1], Zero)
OneSided(q, x, d, c, mid, s) == Quotient(TLCEval(Quantity(q, Along(x, d, s), c)), mid, s)
Inward(q, x, d, c, mid) ==
    OneSided(q, x, d, c, mid, IF NGt(d[1], Zero) THEN StepC ELSE NNeg(StepC))
Outward(q, x, d, c, mid) ==
    OneSided(q, x, d, c, mid, IF NGt(d[1], Zero) THEN NNeg(StepC) ELSE StepC)
=============================================================================
