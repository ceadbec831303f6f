------------------------------ MODULE MC_Joint ------------------------------
(* Joint weights and spectrum of small galaxies: marginals, linearity in the
   templates, and one SFR floor for mass and weights. *)
EXTENDS Galaxy, Json
CONSTANTS Sfrs, TObs, Centres, Scatters, Floors
VARIABLES stage, sfr, g       \* g: the galaxy built so far
vars == <<stage, sfr, g>>
Knots == <<"0.4", "3", "9", "13.8">>
AgeG  == <<"-1.5", "-0.5", "0.4", "0.8", "1.1">>
MetG  == <<"-3", "-2.5", "-2", "-1.5">>
LgZ   == <<"-2.9", "-2.2", "-1.8", "-1.6">>

Init == stage = "form" /\ sfr = << >> /\ g = << >>
FormStars == stage = "form" /\ Len(sfr) < 4 /\ \E s \in Sfrs : sfr' = Append(sfr, s) /\ UNCHANGED <<stage, g>>
Observe == /\ stage = "form" /\ Len(sfr) = 4
           /\ \E to \in TObs, f \in Floors :
                LET h == History(NDeep(Knots), NDeep(sfr), N(f)) IN
                /\ NGt(VSum(MassInAgeBins(h, NDeep(AgeG), N(to))), N("1e-5") ** h.m[4])
                /\ g' = [to |-> to, f |-> f, wa |-> AgeWeights(h, NDeep(AgeG), N(to)), m |-> MassBy(h, N(to))]
           /\ stage' = "observed" /\ UNCHANGED sfr
Enrich == /\ stage = "observed"
          /\ \E c \in Centres, s \in Scatters :
               LET wz == MdfWeights(N(c), N(s), NDeep(MetG))
                   wt == MetTableWeights(Log10s(NDeep(Knots)), NDeep(LgZ), N(s), NDeep(MetG), NDeep(AgeG), N(g.to))
               IN g' = [to |-> g.to, f |-> g.f, wa |-> g.wa, m |-> g.m, c |-> c, s |-> s, wz |-> wz, wt |-> wt,
                        jl |-> JointFromMarginals(wz, g.wa), jt |-> JointFromTable(wt, g.wa)]
          /\ stage' = "composed" /\ UNCHANGED sfr
Next == FormStars \/ Observe \/ Enrich
Spec == Init /\ [][Next]_vars

Tiny == N("1e-25")
Done == stage = "composed"
ColSum(w, j) == VSum([i \in 1..Len(w) |-> w[i][j]])
JointIsDistribution == Done => \A w \in {g.jl, g.jt} :
    /\ Close(Total2(w), One, Tiny, Tiny)
    /\ \A i \in 1..Len(w), j \in 1..Len(w[1]) : NGe(w[i][j], NNeg(Tiny))
Marginals == Done =>
    /\ \A j \in 1..5 : Close(ColSum(g.jl, j), g.wa[j], Tiny, Tiny) /\ Close(ColSum(g.jt, j), g.wa[j], Tiny, Tiny)
    /\ \A i \in 1..4 : Close(VSum(g.jl[i]), g.wz[i], Tiny, Tiny)
\* a constant metallicity history is a lognormal distribution
FluxA == [i \in 1..4 |-> [j \in 1..5 |-> <<N(i), N(j) ** N(i)>>]]
FluxB == [i \in 1..4 |-> [j \in 1..5 |-> <<N(7 - j), One>>]]
Linear == Done =>
    LET a == Spectrum(g.m, g.jl, FluxA) b == Spectrum(g.m, g.jl, FluxB)
        ab == Spectrum(g.m, g.jl, [i \in 1..4 |-> [j \in 1..5 |-> VAdd(FluxA[i][j], Scale(N("3"), FluxB[i][j]))]])
    IN \A k \in 1..2 : Close(ab[k], a[k] ++ (N("3") ** b[k]), Tiny, Tiny)
\* a template block that is flat in age and metallicity gives mass times that template
MassWeighted == Done =>
    Close(Spectrum(g.m, g.jt, [i \in 1..4 |-> [j \in 1..5 |-> <<N("2.5")>>]])[1], N("2.5") ** g.m, Tiny, Tiny)
EmitCases == Done => PrintT("CASE " \o ToJson([t |-> Knots, sfr |-> sfr, tobs |-> g.to, sfrmin |-> g.f,
    lgmet |-> g.c, scatter |-> g.s, lgmets |-> MetG, lgage |-> AgeG, lgz |-> LgZ]))
=============================================================================
