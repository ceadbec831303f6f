----------------------------- MODULE MC_Gradient -----------------------------
(* A small galaxy is built knot by knot; at every galaxy the derivatives of
   the specified quantities obey the calculus they must obey. *)
EXTENDS Gradient, Json
CONSTANTS Sfrs, Dirs, TObs, Floors
VARIABLES sfr, d, tobs, smin
vars == <<sfr, d, tobs, smin>>
Knots == <<"0.5", "4", "9", "13.5">>
AgeG == <<"-1", "0", "0.6", "1">>
Init == sfr = << >> /\ d = << >> /\ tobs \in TObs /\ smin \in Floors
Build1 == Len(sfr) < 4 /\ \E s \in Sfrs, e \in Dirs : sfr' = Append(sfr, s) /\ d' = Append(d, e)
          /\ UNCHANGED <<tobs, smin>>
Next == Build1
Spec == Init /\ [][Next]_vars
Done == Len(sfr) = 4
C == [t |-> NDeep(Knots), n |-> 4, smin |-> N(smin), lgage |-> NDeep(AgeG)]
X == NDeep(sfr)
XT == NDeep(sfr \o <<tobs>>)
DT == NDeep(d \o <<"0">>)
Tiny == N("1e-18")
Mid(q, x) == Quantity(q, x, C)
\* mass is linear: its derivative along the SFRs themselves is the mass (less the floor's share)
MassLinear == Done =>
    LET dm == Derivative("mass", X, X, C) m == Mid("mass", X)
        seed == YearPerGyr ** ((N(Knots[1]) -- TBirthMin) ** (SFRMin // Two)) IN
    \A i \in 1..4 : Close(dm[i], m[i] -- seed, Tiny, Tiny)
\* weights total one, so their derivatives total zero
WeightsKeepTotal == Done =>
    Close(VSum(Derivative("age", XT, DT, C)), Zero, Zero, N("1e-15"))
\* rescaling the history leaves the weights alone when no floor is felt
ScaleFree == (Done /\ smin = "1e-14" /\ \A i \in 1..4 : sfr[i] # "0") =>
    LET w == Derivative("age", XT, NDeep(sfr \o <<"0">>), C) IN
    \A i \in 1..4 : Close(w[i], Zero, Zero, N("1e-8"))
\* a knot under the floor has no say
FlooredKnotsAreDeaf == Done =>
    \A i \in 1..4 : NLt(N(sfr[i]), N(smin)) =>
        LET only == NDeep([k \in 1..5 |-> IF k = i THEN "1e-6" ELSE "0"]) IN
        \A w \in {Derivative("age", XT, only, C)} : \A j \in 1..4 : NEq(w[j], Zero)
EmitCases == Done => PrintT("CASE " \o ToJson([t |-> Knots, sfr |-> sfr, d |-> d, tobs |-> tobs,
                                             smin |-> smin, lgage |-> AgeG]))
=============================================================================
