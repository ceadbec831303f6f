----------------------------- MODULE MC_Filters -----------------------------
(* Filters of several instruments are collected one by one and brought to a
   common length. *)
EXTENDS Photometry, Json
CONSTANTS MaxFilters, Lengths
VARIABLES set
vars == <<set>>
PoolW == << <<"1000", "1100", "1300">>, <<"4000", "4500", "4700", "5500", "6000">>, <<"2000", "9000">>,
            <<"5000", "5001", "5002", "5003">> >>
PoolT == << <<"0", "1", "0.2">>, <<"0.1", "0.9", "0.5", "0.7", "0">>, <<"0.3", "0.8">>, <<"1", "1", "1", "1">> >>
Init == \E i \in 1..Len(PoolW) : set = <<i>>
Add == Len(set) < MaxFilters /\ \E i \in 1..Len(PoolW) : set' = Append(set, i)
Next == Add
Spec == Init /\ [][Next]_vars
W(i) == NDeep(PoolW[i])
T(i) == NDeep(PoolT[i])
Shortest == CHOOSE m \in {Len(PoolW[set[i]]) : i \in 1..Len(set)} :
               \A i \in 1..Len(set) : m <= Len(PoolW[set[i]])
OwnRange == \A i \in 1..Len(set) : \A n \in Lengths \ {0, 1} :
    LET r == Resampled(W(set[i]), T(set[i]), n) IN
    /\ NEq(r.w[1], W(set[i])[1]) /\ Close(r.w[n], W(set[i])[Len(W(set[i]))], N("1e-35"), Zero)
    /\ Increasing(r.w)
    /\ \A k \in 1..n : NLe(r.t[k], MaxOf(T(set[i]))) /\ NGe(r.t[k], MinOf(T(set[i])))
\* the effective wavelength lies inside the filter and moves as 1/(1+z)
EffInside == \A i \in 1..Len(set) :
    LET e == EffWave(W(set[i]), T(set[i]), Zero) IN
    /\ NGe(e, W(set[i])[1]) /\ NLe(e, W(set[i])[Len(W(set[i]))])
    /\ Close(EffWave(W(set[i]), T(set[i]), N("3")), e // N("4"), N("1e-35"), Zero)
EmitCases == \A n \in Lengths : PrintT("CASE " \o ToJson([n |-> n,
    wfs |-> [i \in 1..Len(set) |-> PoolW[set[i]]], tfs |-> [i \in 1..Len(set) |-> PoolT[set[i]]]]))
=============================================================================
