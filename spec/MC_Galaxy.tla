----------------------------- MODULE MC_Galaxy -----------------------------
(***************************************************************************)
(* Exhaustive model of the life of one galaxy on a small lattice: stars     *)
(* form knot by knot, the galaxy is observed once, and afterwards the part  *)
(* of the history that lies in the observation's future is rewritten.       *)
(* Every observed state is also emitted as a CASE that the conformance      *)
(* drivers replay into the code.                                            *)
(***************************************************************************)
EXTENDS Galaxy, Json

CONSTANTS Grids,     \* <<time knots>>: sequence of sequences of numerals
          Sfrs,      \* set of numerals
          TObs,      \* set of numerals
          Ages,      \* sequence of lg age grids
          MaxKnots

VARIABLES g,         \* index of the time grid
          sfr,       \* SFR numerals so far
          mass,      \* mass formed by each knot so far
          obs        \* << >> or <<tobs, age grid index, weights, mass at tobs>>
vars == <<g, sfr, mass, obs>>

Knots == Grids[g]
T(i)  == N(Knots[i])
NumSfr == NDeep(sfr)
TT    == NDeep(SubSeq(Knots, 1, Len(sfr)))

Init == g \in 1..Len(Grids) /\ sfr = << >> /\ mass = << >> /\ obs = << >>

Form == /\ obs = << >>
        /\ Len(sfr) < Len(Knots)
        /\ Len(sfr) < MaxKnots
        /\ \E x \in Sfrs :
             LET k == Len(sfr)
                 s1 == NMax(N(x), SFRMin)
             IN /\ sfr' = Append(sfr, x)
                /\ mass' = Append(mass,
                     TLCEval(IF k = 0 THEN FormStep(Zero, TBirthMin, SFRMin, T(1), s1)
                     ELSE FormStep(mass[k], T(k), NMax(N(sfr[k]), SFRMin), T(k + 1), s1)))
        /\ UNCHANGED <<g, obs>>

H == History(TT, NumSfr, SFRMin)
\* some of the stars fall in the age grid
Resolvable(tobs, a) ==
    NGt(VSum(MassInAgeBins(H, NDeep(a), tobs)), N("1e-5") ** mass[Len(mass)])

Observe == /\ obs = << >>
           /\ Len(sfr) >= 3
           /\ \E to \in TObs, a \in 1..Len(Ages) :
                /\ Resolvable(N(to), Ages[a])
                /\ obs' = <<to, a, AgeWeights(H, NDeep(Ages[a]), N(to)), MassBy(H, N(to))>>
           /\ UNCHANGED <<g, sfr, mass>>

\* knots strictly after the first one at or past tobs do not bear on the observation
FirstPast(to) == CHOOSE i \in 1..(Len(sfr) + 1) :
                   /\ i = Len(sfr) + 1 \/ NGe(T(i), N(to))
                   /\ \A j \in 1..(i - 1) : NLt(T(j), N(to))
Rewrite == /\ obs # << >>
           /\ \E i \in (FirstPast(obs[1]) + 1)..Len(sfr), x \in Sfrs :
                /\ sfr' = [sfr EXCEPT ![i] = x]
                /\ mass' = FormedMass(TT, Floored(NDeep(sfr'), SFRMin))
           /\ UNCHANGED <<g, obs>>

Next == Form \/ Observe \/ Rewrite
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Tiny == N("1e-25")

\* the step-by-step masses are the closed form
MassIsIntegral == mass = << >> \/
    \A i \in 1..Len(mass) :
        Close(mass[i], FormedMass(TT, Floored(NumSfr, SFRMin))[i], Tiny, Tiny)
MassGrows == \A i \in 1..Len(mass) : NGt(mass[i], IF i = 1 THEN Zero ELSE mass[i - 1])
\* a longer history never changes masses already formed
PrefixStable == [][obs' = << >> => SubSeq(mass', 1, Len(mass)) = mass]_vars

WeightsAreDistribution == obs # << >> =>
    /\ \A i \in 1..Len(obs[3]) : NGe(obs[3][i], Zero)
    /\ Close(VSum(obs[3]), One, Tiny, Tiny)
\* stars cannot be older than the universe
NoOldStars == obs # << >> =>
    LET e == LgAgeEdges(NDeep(Ages[obs[2]])) IN
    \A i \in 1..Len(obs[3]) :
        NGe(NPow10(e[i]), N(obs[1]) -- TBirthMin) => NEq(obs[3][i], Zero)
\* the future does not matter: the observation, redone on the current history, is unchanged
Causal == obs # << >> =>
    /\ \A i \in 1..Len(obs[3]) :
         Close(AgeWeights(H, NDeep(Ages[obs[2]]), N(obs[1]))[i], obs[3][i], Tiny, Tiny)
    /\ Close(MassBy(H, N(obs[1])), obs[4], Tiny, Tiny)
\* an observed mass lies between the masses of the knots around it
MassBracketed == obs # << >> =>
    /\ NLe(obs[4], mass[Len(mass)] ** (One ++ Tiny))
    /\ NGe(obs[4], mass[1] ** (One -- Tiny))
\* splitting a segment at its midpoint does not change the masses at the old knots
RefineInvariant == Len(sfr) >= 2 =>
    LET k == Len(sfr)
        tm == Half ** (T(k - 1) ++ T(k))
        s == Floored(NumSfr, SFRMin)
        sm == Half ** (s[k - 1] ++ s[k])
        m == FormedMass(SubSeq(TT, 1, k - 1) \o <<tm, T(k)>>, SubSeq(s, 1, k - 1) \o <<sm, s[k]>>)
    IN Close(m[k + 1], mass[k], Tiny, Tiny)
\* weights do not depend on the normalisation of the SFH
ScaleInvariant == obs # << >> =>
    LET h10 == History(TT, Scale(N("10"), Floored(NumSfr, N("1e-6"))), SFRMin)
        h1  == History(TT, Floored(NumSfr, N("1e-6")), SFRMin)
        a == NDeep(Ages[obs[2]])
        w10 == AgeWeights(h10, a, N(obs[1]))  w1 == AgeWeights(h1, a, N(obs[1]))
    IN \A i \in 1..Len(a) : Close(w10[i], w1[i], N("1e-6"), N("1e-7"))

Emit == obs # << >> /\ Len(sfr) >= 3 /\
        PrintT("CASE " \o ToJson([t |-> SubSeq(Knots, 1, Len(sfr)), sfr |-> sfr,
                                  tobs |-> obs[1], lgage |-> Ages[obs[2]]]))
EmitCases == Emit \/ TRUE

GridsQ == << <<"0.01", "1.0", "2.5", "13.8">>, <<"0.5", "0.6", "6", "9">> >>
AgesQ  == << <<"-3", "-1.5", "-0.5", "0.4", "1.2">>, <<"-0.2", "0", "0.1">> >>
GridsT == << <<"0.01", "1.0", "2.5", "6", "13.8">>, <<"0.5", "0.6", "2.5", "6", "9">>,
             <<"1", "2", "3", "4", "5">> >>
AgesT  == << <<"-3", "-1.5", "-0.5", "0.4", "1.2">>, <<"-0.2", "0", "0.1">>,
             <<"-4", "-2", "-1", "-0.5", "0", "0.5", "0.8", "1">> >>
=============================================================================
