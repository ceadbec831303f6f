------------------------------- MODULE MC_Mdf -------------------------------
(* Lognormal metallicity weights on a lattice of centres, scatters and grids:
   the weights are a distribution, the blob is symmetric, wider blobs reach
   further, and the mass moves upwards with the centre. *)
EXTENDS Galaxy, Json
CONSTANTS Centres, Scatters, MetGrids
VARIABLES x, sig, grid
vars == <<x, sig, grid>>
Init == x \in Centres /\ sig \in Scatters /\ grid \in 1..Len(MetGrids)
\* the centre, the scatter or the template grid is changed
MoveCentre   == x' \in Centres /\ UNCHANGED <<sig, grid>>
MoveScatter  == sig' \in Scatters /\ UNCHANGED <<x, grid>>
MoveGrid     == grid' \in 1..Len(MetGrids) /\ UNCHANGED <<x, sig>>
Next == MoveCentre \/ MoveScatter \/ MoveGrid
Spec == Init /\ [][Next]_vars

M == NDeep(MetGrids[grid])
W(c, s) == MdfWeights(N(c), N(s), M)
Tiny == N("1e-25")
IsDistribution == LET w == W(x, sig) IN
    /\ Close(VSum(w), One, Tiny, Tiny)
    /\ \A i \in 1..Len(w) : NGe(w[i], NNeg(Tiny))
\* cumulative weights fall as the centre rises (stochastic order)
Cum(w) == RunSum(w)
Ordered == [][(sig' = sig /\ grid' = grid /\ NLe(N(x), N(x')))
              => LET a == Cum(MdfWeights(N(x), N(sig), M)) b == Cum(MdfWeights(N(x'), N(sig), M))
                     caught(c) == NGe(MdfCaught(N(c), N(sig), M), One -- Tiny)
                 IN (caught(x) /\ caught(x')) => \A i \in 1..Len(a) : NGe(a[i], b[i] -- Tiny)]_vars
Complementary == \A z \in {"0", "0.3", "1", "2.9", "3", "4"} :
    Close(TwCdf(N(z)) ++ TwCdf(NNeg(N(z))), One, Tiny, Tiny)
Monotone == \A k \in 0..40 :
    LET z(j) == (N(j) ** N("0.2")) -- N("4") IN NLe(TwCdf(z(k)), TwCdf(z(k + 1)))
EmitCases == PrintT("CASE " \o ToJson([lgmet |-> x, scatter |-> sig, lgmets |-> MetGrids[grid]]))
GridsC == << <<"-3", "-2", "-1.5">>, <<"-4", "-3.6", "-3", "-2.2", "-1.3">>, <<"-2", "0", "2", "4">>,
             <<"-2.2", "-2.1", "-2", "-1.9", "-1.8", "-1.7">> >>
=============================================================================
