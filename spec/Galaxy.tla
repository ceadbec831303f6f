------------------------------- MODULE Galaxy -------------------------------
(***************************************************************************)
(* A galaxy forms stars along a table of (time, SFR) knots, is observed at *)
(* a time tobs, and its light is composed from single-age,                 *)
(* single-metallicity templates (SSPs).                                    *)
(*                                                                         *)
(* Units: time Gyr (age of the universe), SFR Msun/yr, masses Msun,        *)
(* lg = log10, SSP ages log10(Gyr), SSP flux Lsun/Hz/Msun.                 *)
(***************************************************************************)
EXTENDS Vec

TBirthMin  == N("0.001")    \* nothing is born earlier
SFRMin     == N("1e-14")    \* SFR before the table, and floor of the SFR
YearPerGyr == N("1e9")
LgMetLo    == N("-10")
LgMetHi    == N("10")

(* ---- star formation ---------------------------------------------------- *)
\* one step of star formation: mass formed by the end of [t0, t1] when mass m
\* had formed by t0 and the SFR goes linearly from s0 to s1
FormStep(m, t0, s0, t1, s1) ==
    m ++ (YearPerGyr ** ((t1 -- t0) ** ((s1 ++ s0) // Two)))

\* mass formed by each knot; before the first knot the SFR rises from SFRMin at TBirthMin
FormedMass(t, s) ==
    RunSum(TLCEval([i \in 1..Len(t) |->
        IF i = 1 THEN FormStep(Zero, TBirthMin, SFRMin, t[1], s[1])
        ELSE FormStep(Zero, t[i - 1], s[i - 1], t[i], s[i])]))

Floored(s, smin) == Map(LAMBDA x : NMax(x, smin), s)

\* a history is kept as its logs: the code interpolates lg M linearly in lg t
History(t, s, smin) ==
    LET m == FormedMass(t, Floored(s, smin)) IN
    TLCEval([lgt |-> Log10s(t), lgm |-> Log10s(m), m |-> m])
MassBy(h, time) == NPow10(Interp(NLog10(time), h.lgt, h.lgm))

(* ---- observation: distribution of stellar ages ------------------------- *)
LgAgeEdges(a) ==
    BinEdges(a, a[1] -- ((a[2] -- a[1]) // Two),
             a[Len(a)] ++ (Widths(a)[Len(a)] // Two))

BirthTime(tobs, lgage) == NMax(tobs -- NPow10(lgage), TBirthMin)

\* mass formed in the birth-time interval of each age bin
MassInAgeBins(h, lgage, tobs) ==
    LET e == LgAgeEdges(lgage)
        m == TLCEval([i \in 1..Len(e) |-> MassBy(h, BirthTime(tobs, e[i]))])
    IN TLCEval([i \in 1..Len(lgage) |-> m[i] -- m[i + 1]])

AgeWeights(h, lgage, tobs) == Normalised(MassInAgeBins(h, lgage, tobs))

(* ---- metallicity distribution ------------------------------------------ *)
\* integral of the triweight kernel (a smooth bump on (-3, 3)) up to z
TwCdf(z) ==
    IF NLt(z, N("-3")) THEN Zero
    ELSE IF NLt(N("3"), z) THEN One
    ELSE LET z2 == TLCEval(z ** z)
             p  == N("35") // N("96")
             q  == N("35") // N("864")
             r  == N("7") // N("2592")
             u  == N("5") // N("69984")
         IN Half ++ (z ** (p -- (z2 ** (q -- (z2 ** (r -- (z2 ** u)))))))

\* share of a triweight blob of centre x and scale sig inside each bin
TwShares(x, sig, edges) ==
    LET c == TLCEval([i \in 1..Len(edges) |-> TwCdf((x -- edges[i]) // sig)])
    IN TLCEval([i \in 1..(Len(edges) - 1) |-> c[i] -- c[i + 1]])

\* all of a blob that misses the grid goes to the bin nearest to it
MdfOnEdges(x, sig, edges) ==
    LET w == TLCEval(TwShares(x, sig, edges))
        n == Len(w)
        tot == TLCEval(VSum(w))
    IN IF NGt(tot, Zero) THEN TLCEval([i \in 1..n |-> w[i] // tot])
       ELSE TLCEval([i \in 1..n |->
              IF NLt(x, edges[1]) THEN (IF i = 1 THEN One ELSE Zero)
              ELSE IF NGt(x, edges[n + 1]) THEN (IF i = n THEN One ELSE Zero)
              ELSE Zero])
LgMetEdges(m) == BinEdges(m, LgMetLo, LgMetHi)
MdfWeights(x, sig, m) == MdfOnEdges(x, sig, LgMetEdges(m))
\* share of the blob on the grid: below 1e-6 the code's float noise is amplified
MdfCaught(x, sig, m) == VSum(TwShares(x, sig, LgMetEdges(m)))

\* metallicity of the stars of each age, from a metallicity history
LgMetOfAges(lgt, lgz, lgage, tobs) ==
    TLCEval([j \in 1..Len(lgage) |->
        Interp(NLog10(BirthTime(tobs, lgage[j])), lgt, lgz)])
\* column j is the distribution of metallicity of the stars of age j; all columns weigh 1/n
MetTableWeights(lgt, lgz, sig, m, lgage, tobs) ==
    LET z == LgMetOfAges(lgt, lgz, lgage, tobs)
        nA == Len(lgage)
        e == LgMetEdges(m)
        col == TLCEval([j \in 1..nA |-> MdfOnEdges(z[j], sig, e)])
    IN TLCEval([i \in 1..Len(m) |-> TLCEval([j \in 1..nA |-> col[j][i] // N(nA)])])

(* ---- joint distribution and spectrum ----------------------------------- *)
Total2(w) == VSum([i \in 1..Len(w) |-> VSum(w[i])])
JointFromMarginals(wz, wa) ==
    LET p == TLCEval([i \in 1..Len(wz) |-> TLCEval([j \in 1..Len(wa) |-> wz[i] ** wa[j]])])
        tot == Total2(p)
    IN TLCEval([i \in 1..Len(wz) |-> TLCEval([j \in 1..Len(wa) |-> p[i][j] // tot])])
JointFromTable(wzt, wa) ==
    LET p == TLCEval([i \in 1..Len(wzt) |-> TLCEval([j \in 1..Len(wa) |-> wzt[i][j] ** wa[j]])])
        tot == Total2(p)
    IN TLCEval([i \in 1..Len(wzt) |-> TLCEval([j \in 1..Len(wa) |-> p[i][j] // tot])])

\* flux[i][j][k]: metallicity i, age j, wavelength k
Spectrum(mass, w, flux) ==
    LET nZ == Len(w)  nA == Len(w[1])  nW == Len(flux[1][1]) IN
    TLCEval([k \in 1..nW |->
        mass ** VSum([i \in 1..nZ |-> VDot(w[i], [j \in 1..nA |-> flux[i][j][k]])])])

(* ---- bursts ------------------------------------------------------------- *)
TwGaussian(x, m, h) ==
    LET z == (x -- m) // h
        u == One -- ((z // N("3")) ** (z // N("3")))
    IN IF NLt(z, N("-3")) \/ NGt(z, N("3")) THEN Zero
       ELSE ((N("35") // N("96")) ** (u ** (u ** u))) // h

\* stellar ages of the burst: bump in lg age (yr) on [2 peak - max, max]
BurstWeights(lgyr, peak, max) ==
    LET h == ((max -- peak) ** Two) // N("6")
        w == TLCEval([i \in 1..Len(lgyr) |-> TwGaussian(lgyr[i], peak, h)])
        tot == VSum(w)
    IN IF NGt(tot, Zero) THEN TLCEval([i \in 1..Len(w) |-> w[i] // tot]) ELSE w
BurstMix(fb, bw, sw) ==
    TLCEval([i \in 1..Len(sw) |-> (fb ** bw[i]) ++ ((One -- fb) ** sw[i])])
BurstyAgeWeights(lgfb, peak, max, sw, lgage) ==
    BurstMix(NPow10(lgfb), BurstWeights(Shift(N("9"), lgage), peak, max), sw)
=============================================================================
