------------------------------- MODULE MC_Imf -------------------------------
(* A population ages step by step. *)
EXTENDS Imf, Json
CONSTANTS Step, AgeLo, AgeHi      \* in hundredths of dex
VARIABLES imf, age
vars == <<imf, age>>
Init == imf \in Imfs /\ age = AgeLo
Older == age + Step <= AgeHi /\ age' = age + Step /\ UNCHANGED imf
Next == Older
Spec == Init /\ [][Next]_vars
Lg(a) == N(a) // N("100")
S(a) == Surviving(Lg(a), SurvivingPars(imf))
R(a) == Remnant(Lg(a), RemnantPars(imf))
SurvivorsAreAFraction == NGt(S(age), Zero) /\ NLe(S(age), One)
RemnantsAreAFraction == NGe(R(age), Zero) /\ NLe(R(age), One)
\* the fits are not meant for the first million years, where they rise by up to 0.002
NeverRegained == [][age >= 600 => NLe(S(age'), S(age))]_vars
EmitCases == PrintT("CASE " \o ToJson([imf |-> imf, lga |-> NStr(Lg(age))]))
=============================================================================
