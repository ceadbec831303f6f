------------------------------ MODULE MC_Dust ------------------------------
(* Light crosses dust screens that share one reddening curve, one after the
   other.  What comes out depends only on the total column. *)
EXTENDS Dust, Json, FiniteSets
CONSTANTS Laws, Ampls, Slopes, Floors, Screens, MaxScreens
VARIABLES law, p, floor, thru, n, av
vars == <<law, p, floor, thru, n, av>>
Waves == <<"0.01", "0.0912", "0.1499", "0.15", "0.1501", "0.2175", "0.3", "0.5499", "0.55",
           "0.6299", "0.63", "0.6301", "1", "2.2", "5", "30">>
P(ampl, slope) == NDeep(<<ampl, slope>>) \o BumpDefault
Init == /\ law \in Laws
        /\ \E a \in Ampls, s \in Slopes :
             p = IF law \in {"noll", "salim"} THEN <<a, s>> ELSE <<"">>
        /\ floor \in Floors
        /\ thru = [i \in 1..Len(Waves) |-> "1"]       \* transmitted fraction without the floor
        /\ n = 0 /\ av = 0
Par == IF law = "triweight" THEN TwDefault ELSE IF p = <<"">> THEN << >> ELSE P(p[1], p[2])
K == TLCEval([i \in 1..Len(Waves) |-> Reddening(law, N(Waves[i]), Par)])
\* av is kept in tenths
Av(a) == N(a) // N("10")
Cross == /\ n < MaxScreens /\ n' = n + 1
         /\ \E d \in Screens :
              /\ av' = av + d
              /\ LET k == K IN thru' = TLCEval([i \in 1..Len(Waves) |->
                   NStr(N(thru[i]) ** Transmission(k[i], Av(d), Zero))])
         /\ UNCHANGED <<law, p, floor>>
Next == Cross
Spec == Init /\ [][Next]_vars
T(f) == LET k == K IN TLCEval([i \in 1..Len(Waves) |-> Transmission(k[i], Av(av), f)])
AllCloseS(x, y) == \A i \in 1..Len(x) : Close(x[i], y[i], N("1e-13"), Zero)
OnlyColumnMatters == AllCloseS(T(Zero), NDeep(thru))
IsFraction == LET t == T(N(floor)) IN
    \A i \in 1..Len(Waves) : NGe(t[i], N(floor)) /\ NLe(t[i], One)
NothingWithoutDust == av = 0 => \A i \in 1..Len(Waves) : NEq(T(N(floor))[i], One)
MoreDustLessLight == [][\A i \in 1..Len(Waves) : NLe(N(thru'[i]), N(thru[i]))]_vars
\* curves agree where they must
SaneCurves == LET k == K IN
    /\ law \in {"noll", "salim"} => \A i \in 1..Len(Waves) : NGe(k[i], Zero)
    /\ (law \in {"noll", "salim"} /\ NEq(N(p[1]), Zero) /\ NEq(N(p[2]), Zero)) =>
         \A i \in 1..Len(Waves) : NEq(k[i], NonNeg(Joined(N(Waves[i]), N("0.15"))))
    /\ law = "calzetti" => Close(k[9], RV, N("2e-3"), Zero)      \* k(V) = Rv
EmitCases == PrintT("CASE " \o ToJson([law |-> law, p |-> p, floor |-> floor,
    av |-> NStr(Av(av)), w |-> Waves]))
=============================================================================
