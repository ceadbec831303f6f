------------------------------ MODULE MC_Burst ------------------------------
(* A smooth population that undergoes bursts: mass moves into the burst
   window and is conserved. *)
EXTENDS Galaxy, Json
CONSTANTS Fbs, Peaks, Fracs, MaxBursts
VARIABLES w, hist
vars == <<w, hist>>
AgeG == <<"-4", "-3.3", "-2.7", "-2", "-1.4", "-0.8", "-0.1", "0.6", "1.2">>
Smooth == <<"0.02", "0.03", "0.05", "0.1", "0.1", "0.2", "0.3", "0.15", "0.05">>
Init == w = NDeep(Smooth) /\ hist = << >>
\* lgyr_max lies a fraction of the way between its bounds peak + 1 and 9
MaxAge(p, f) == (N(p) ++ One) ++ (N(f) ** (N("8") -- N(p)))
Burst == /\ Len(hist) < MaxBursts
         /\ \E fb \in Fbs, p \in Peaks, f \in Fracs :
              /\ w' = BurstyAgeWeights(N(fb), N(p), MaxAge(p, f), w, NDeep(AgeG))
              /\ hist' = Append(hist, <<fb, p, f>>)
Next == Burst
Spec == Init /\ [][Next]_vars
Tiny == N("1e-25")
Lgyr == Shift(N("9"), NDeep(AgeG))
MassConserved == Close(VSum(w), One, Tiny, Tiny)
NonNegative == \A i \in 1..Len(w) : NGe(w[i], Zero)
OutsideOnlyScaled == [][ \A i \in 1..Len(w) :
    LET b == hist'[Len(hist')] p == N(b[2]) mx == MaxAge(b[2], b[3]) IN
      (NGt(Lgyr[i], mx) \/ NLt(Lgyr[i], (Two ** p) -- mx))
        => Close(w'[i], (One -- NPow10(N(b[1]))) ** w[i], Tiny, Zero) ]_vars
EmitCases == hist = << >> \/ Len(hist) > 1 \/
    PrintT("CASE " \o ToJson([lgfb |-> hist[1][1], peak |-> hist[1][2], max |-> NStr(MaxAge(hist[1][2], hist[1][3])),
        smooth |-> Smooth, lgage |-> AgeG, how |-> "tuple"]))
=============================================================================
