----------------------------- MODULE MC_EmLines -----------------------------
(* A user keeps narrowing and reordering a set of emission lines. *)
EXTENDS EmLines, Json
CONSTANTS MaxSteps
VARIABLES d, hist, failed
vars == <<d, hist, failed>>
Names0 == <<"Ha", "Hb", "OIII", "NII">>
\* entry tells where it comes from
D0 == [names |-> Names0, lwave |-> <<"6563", "4861", "5007", "6584">>,
       llum |-> [z \in 1..2 |-> [a \in 1..2 |-> [i \in 1..4 |-> <<z, a, Names0[i]>>]]], flux |-> "flux"]
Distinct(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
Wants == UNION {{s \in [1..n -> {"Ha", "Hb", "OIII", "NII", "zzz"}] : Distinct(s)} : n \in 1..4}
Init == d = D0 /\ hist = << >> /\ failed = FALSE
Pick(w) == /\ ~failed /\ Len(hist) < MaxSteps
           /\ hist' = Append(hist, w)
           /\ failed' = ~Known(d.names, w)
           /\ d' = IF failed' THEN d ELSE Subset(d, w)
Next == \E w \in Wants : Pick(w)
Spec == Init /\ [][Next]_vars
View == <<d, failed, Len(hist)>>
Together == \A i \in 1..Len(d.names) :
    /\ d.lwave[i] = D0.lwave[Pos(Names0, d.names[i])]
    /\ \A z, a \in 1..2 : d.llum[z][a][i] = <<z, a, d.names[i]>>
    /\ d.flux = D0.flux
\* a chain of subsets is the last one taken directly
OnlyLastMatters == (~failed /\ hist # << >>) => d = Subset(D0, hist[Len(hist)])
EmitCases == hist = << >> \/ PrintT("CASE " \o ToJson([hist |-> hist, failed |-> failed]))
=============================================================================
