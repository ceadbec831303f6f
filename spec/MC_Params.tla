----------------------------- MODULE MC_Params -----------------------------
(* A sampler walks through unbounded parameter space, moving one coordinate
   at a time; the bounded parameters it sees stay in bounds, move with the
   coordinate that moved (and only with what depends on it), and are undone
   by the inverse. *)
EXTENDS Params, Json, FiniteSets
CONSTANTS Kind, Values, MaxMoves
VARIABLES u, moves
vars == <<u, moves>>
Dim == IF Kind = "burst" THEN 3 ELSE 9
Init == u = [i \in 1..Dim |-> "0"] /\ moves = 0
Move == /\ moves < MaxMoves
        /\ \E i \in 1..Dim, v \in Values : u' = [u EXCEPT ![i] = v]
        /\ moves' = moves + 1
Next == Move
Spec == Init /\ [][Next]_vars
View == u
P == Bound(Kind, NDeep(u))
StaysInBounds == Inside(Kind, P)
RoundTrips == LET back == Unbound(Kind, P) IN
              \A i \in 1..Dim : Close(back[i], N(u[i]), N("1e-15"), N("1e-12"))
\* coordinate i moved up => parameter i moves up, and only its dependants move with it
Depends(j, i) == (Kind = "burst" /\ j = 3 /\ i = 2) \/ (Kind = "mzr" /\ j = 5 /\ i = 4)
Coordinatewise == [][
    LET p == Bound(Kind, NDeep(u)) q == Bound(Kind, NDeep(u')) IN
    \A i \in 1..Dim :
       /\ (NLt(N(u[i]), N(u'[i])) /\ ~\E k \in 1..Dim : Depends(i, k) /\ u[k] # u'[k])
             => NLt(p[i], q[i])
       /\ (u[i] = u'[i] /\ ~\E k \in 1..Dim : Depends(i, k) /\ u[k] # u'[k])
             => NEq(p[i], q[i])]_vars
EmitCases == PrintT("CASE " \o ToJson([u |-> u]))
=============================================================================
