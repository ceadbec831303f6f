----------------------------- MODULE MC_Kernels -----------------------------
(* A blob of unit mass slides over a row of bins and is stretched: its mass
   is conserved while it is on the grid, and moves only forward. *)
EXTENDS Kernels, Json
CONSTANTS Sigs, Last
VARIABLES x, sig
vars == <<x, sig>>
Edges == NDeep(<<"0", "1", "1.5", "3", "7", "8">>)
Init == x = -8 /\ sig \in Sigs
Slide == x < Last /\ x' = x + 1 /\ UNCHANGED sig
Next == Slide
Spec == Init /\ [][Next]_vars
X == N(x) // Two
S == N(sig)
H(p) == TwShares(p, S, Edges)
OnGrid == NGe(X -- (N("3") ** S), Edges[1]) /\ NLe(X ++ (N("3") ** S), Edges[Len(Edges)])
T30 == N("1e-30")
Conserved == /\ \A i \in 1..5 : NGe(H(X)[i], Zero)
             /\ NLe(VSum(H(X)), One ++ T30)
             /\ OnGrid => Close(VSum(H(X)), One, T30, Zero)
\* mass beyond any edge never shrinks as the blob moves right
Forward == [][\A i \in 1..6 : NLe(TwCdf((X -- Edges[i]) // S), TwCdf(((N(x') // Two) -- Edges[i]) // S))]_vars
\* the density is the derivative of the cumulative function
H8 == N("1e-9")
DensityIsSlope ==
    Close((TwCdf((X ++ H8) // S) -- TwCdf((X -- H8) // S)) // (Two ** H8), TwGaussian(X, Zero, S), N("1e-12"), N("1e-12"))
\* power law density integrates to its cumulative function; inverse undoes it
G == N(sig) -- N("0.7")
PowerLawSane ==
    LET a == One b == N("5") y == NClip(X, One, N("5")) u == PowerCdf(y, a, b, G) IN
    /\ Close(PowerInv(u, a, b, G), y, N("1e-25"), Zero)
    /\ (NGt(y, a) /\ NLt(y, b)) =>
       Close((PowerCdf(y ++ H8, a, b, G) -- PowerCdf(y -- H8, a, b, G)) // (Two ** H8), PowerPdf(y, a, b, G), N("1e-12"), Zero)
EmitCases == PrintT("CASE " \o ToJson([x |-> NStr(X), sig |-> sig, g |-> NStr(G)]))
=============================================================================
