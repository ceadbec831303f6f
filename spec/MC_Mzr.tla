------------------------------- MODULE MC_Mzr -------------------------------
(* A galaxy of some mass ages; its metallicity follows the relation. *)
EXTENDS Params, Json, FiniteSets
CONSTANTS Masses, Times, Tweaks
VARIABLES lgm, t, q
vars == <<lgm, t, q>>
Default == <<"0.05", "10.5", "1", "0.4", "0.1", "-1.455", "0.13", "-0.959", "0.067242">>
Init == lgm \in Masses /\ t = 1 /\ q \in ({Default} \cup {[Default EXCEPT ![w[1]] = w[2]] : w \in Tweaks})
Age  == t < Len(Times) /\ t' = t + 1 /\ UNCHANGED <<lgm, q>>
Grow == t < Len(Times) /\ t' = t + 1 /\ lgm' \in {m \in Masses : NLe(N(lgm), N(m))} /\ q' = q
Next == Age \/ Grow
Spec == Init /\ [][Next]_vars
Z(m, time) == MzrModel("umzr", N(m), N(time), NDeep(q))
Z0(m) == MzrModelT0("umzr", N(m), NDeep(q))
Tiny == N("1e-30")
NeverAboveToday == NLe(Z(lgm, Times[t]), Z0(lgm))
\* past T0 nothing evolves; what is left is the tail of the sigmoid at lookback 0
TodayAfterT0 == NGe(N(Times[t]), EvolT0) =>
    /\ NEq(Z(lgm, Times[t]), Z(lgm, "12.5"))
    /\ Close(Z(lgm, Times[t]), Z0(lgm), Zero, N("1e-4"))
PivotValue == Close(MzrModelT0("umzr", N("10.5"), NDeep(q)), LgMetSolar ++ N(q[1]), Tiny, Tiny)
\* lookback time tc: the reduction is the linear function of mass y (when not capped)
ReductionAtTc ==
    Close(MzrEvol(N(lgm), EvolT0 -- TlookC, TlookC, SubSeq(NDeep(q), 6, 9)),
          NMin(N(q[6]) ++ (N(q[7]) ** N(lgm)), Zero), Tiny, Tiny)
OldStyle(p) == SubSeq(p, 1, 7) \o <<"8.44">> \o SubSeq(p, 8, 9)
ImplementationsAgree ==
    q[2] = "10.5" => Close(MzrModel("mzr", N(lgm), N(Times[t]), NDeep(OldStyle(q))),
                           Z(lgm, Times[t]), Tiny, Tiny)
EmitCases == PrintT("CASE " \o ToJson([lgm |-> lgm, t |-> Times[t], p |-> q]))
TimesC == <<"0.3", "4.06", "8", "12.4", "12.5", "13.9">>
TweaksC == {<<1, "-0.7">>, <<2, "10.3">>, <<3, "1.9">>, <<4, "0.15">>, <<5, "0.35">>, <<5, "0">>,
            <<6, "-1.05">>, <<6, "-2">>, <<7, "0.4">>, <<8, "-0.55">>, <<9, "0.45">>}
=============================================================================
