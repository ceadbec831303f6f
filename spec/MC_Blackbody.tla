---------------------------- MODULE MC_Blackbody ----------------------------
(* A body heats up in steps while a detector sweeps the spectrum. *)
EXTENDS Blackbody, Json, FiniteSets
CONSTANTS Temps, Xs
VARIABLES it, ix
vars == <<it, ix>>
TempOf(i) == N(Temps[i])
\* the detector sits at a fixed h nu / k T
Nu(x, temp) == ((x ** KBoltz) ** temp) // HPlanck
Init == it = 1 /\ ix = 1
Heat == it < Len(Temps) /\ it' = it + 1 /\ UNCHANGED ix
Sweep == ix < Len(Xs) /\ ix' = ix + 1 /\ UNCHANGED it
Next == Heat \/ Sweep
Spec == Init /\ [][Next]_vars
X == N(Xs[ix])
TNow == TempOf(it)
NuNow == Nu(X, TNow)
Aa == (CLight // NuNow) ** AngstromPerMeter
SameEnergy == Close(Aa ** BLam(Aa, TNow), NuNow ** BNu(NuNow, TNow), N("1e-35"), Zero)
HotterIsBrighter == [][ix' = ix =>
    NLt(BNu(Nu(X, TNow), TNow), BNu(Nu(X, TNow), TempOf(it')))]_vars
RayleighJeans == NLt(X, N("1e-4")) =>
    Close(BNu(NuNow, TNow),
          ((Two ** ((NuNow ** NuNow) ** (KBoltz ** TNow))) // (CLight ** CLight)) // WattsPerLsun, X, Zero)
Wien == NGt(X, N("30")) =>
    Close(BNu(NuNow, TNow),
          (((Two ** HPlanck) ** ((NuNow ** NuNow) ** NuNow)) // (CLight ** CLight))
            ** (NExp(NNeg(X)) // WattsPerLsun), N("1e-12"), Zero)
Between == NGe(BNu(NuNow, TNow), Zero)
EmitCases == PrintT("CASE " \o ToJson([nu |-> NStr(NuNow), aa |-> NStr(Aa), temp |-> Temps[it], x |-> Xs[ix]]))
TempsC == <<"1", "2.725", "30", "300", "5772", "1e5", "1e8">>
XsC == <<"1e-16", "1e-13", "1e-11", "9.9e-9", "1e-8", "1e-6", "1e-3", "0.1", "1", "2.821", "10", "40", "300", "600", "800">>
=============================================================================
