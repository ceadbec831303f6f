---------------------------- MODULE MC_Cosmology ----------------------------
(* A source is pushed to higher and higher redshift in one of several
   universes. *)
EXTENDS Cosmology, Json
CONSTANTS Universes, Redshifts
VARIABLES u, k
vars == <<u, k>>
Init == u \in 1..Len(Universes) /\ k = 1
Push == k < Len(Redshifts) /\ k' = k + 1 /\ u' = u
Next == Push
Spec == Init /\ [][Next]_vars
C == NDeep(Universes[u])
Z(i) == N(Redshifts[i])
EdS == Universes[u][1] = "1"
LCDM == Universes[u][2] = "-1" /\ Universes[u][3] = "0"
E7 == N("1e-7")
\* closed forms pin the quadrature
EinsteinDeSitter == EdS =>
    /\ Close(ComovingInt(Z(k), C, NStep), Two ** (One -- (One // NSqrt(One ++ Z(k)))), E7, Zero)
    /\ Close(AgeInt(One // (One ++ Z(k)), C, 2 * NStep),
             (Two // N("3")) // ((One ++ Z(k)) ** NSqrt(One ++ Z(k))), E7, Zero)
LambdaAge == (LCDM /\ ~EdS) =>
    LET r == NSqrt((One -- C[1]) // C[1]) IN
    Close(AgeInt(One, C, 2 * NStep),
          (Two // (N("3") ** NSqrt(One -- C[1]))) ** NLn(r ++ NSqrt((r ** r) ++ One)), E7, Zero)
AgesAddUp == Close(AgeAt(Z(k), C) ++ Lookback(Z(k), C), AgeToday(C), N("1e-5"), Zero)
Today == Close(E2(One, C), One, N("1e-40"), Zero)
MatterWins == NGe(OmegaM(One ++ Z(k), C), Zero) /\ NLe(OmegaM(One ++ Z(k), C), One)
Further == [][ /\ NLt(Comoving(Z(k), C), Comoving(Z(k'), C))
               /\ NLt(Lookback(Z(k), C), Lookback(Z(k'), C))
               /\ NLt(AgeAt(Z(k'), C), AgeAt(Z(k), C))
               \* distances add: d(z') - d(z) is the distance between
               /\ NLt(E2(One ++ Z(k), C), E2(One ++ Z(k'), C)) ]_vars
EmitCases == PrintT("CASE " \o ToJson([c |-> Universes[u], z |-> Redshifts[k]]))
UniversesC == << <<"0.3075", "-1", "0", "0.6774">>, <<"1", "-1", "0", "0.7">>, <<"0.27", "-1", "0", "0.72">>,
   <<"0.3", "-0.8", "0", "0.7">>, <<"0.3", "-0.9", "0.3", "0.65">>, <<"0.25", "-1.05", "0.3", "0.75">>,
   <<"0.5", "-1", "0", "1">>, <<"0.15", "-0.9", "-0.3", "0.6">> >>
RedshiftsC == <<"0", "1e-4", "0.01", "0.1", "0.5", "1", "2", "3.7", "6", "10", "20">>
=============================================================================
