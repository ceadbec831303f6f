------------------------------ MODULE MC_Lines ------------------------------
(* A spectrum is reworked pixel by pixel while a line is being measured. *)
EXTENDS Lines, Json
CONSTANTS MaxEdits
VARIABLES f, n, how
vars == <<f, n, how>>
W == <<"4980", "4984", "4988", "4992", "4996", "5000", "5004", "5008", "5012", "5016", "5021">>
G == <<"4993", "5001", "5009", "4984", "4990", "5012", "5016">>
Fl(s) == NDeep(s)
Str(s) == [i \in 1..Len(s) |-> NStr(s[i])]
Starts == {[i \in 1..Len(W) |-> "2"],
           <<"1", "1.5", "1.2", "3", "7", "9", "6", "2", "1", "1.1", "0.7">>,
           [i \in 1..Len(W) |-> NStr(N("3") ++ (((N(W[i]) -- N("4970")) ** (N(W[i]) -- N("5040"))) // N("1000")))]}
Init == f \in Starts /\ n = 0 /\ how = "start"
Fit(s) == QuadFit(Pick(NDeep(W), NDeep(s), NDeep(G)))
Flux(s) == LineFlux(NDeep(W), NDeep(s), NDeep(G), Fit(s))
Width(s) == EqWidth(NDeep(W), NDeep(s), NDeep(G), Fit(s))
Outside(i) == ~InContinuum(N(W[i]), NDeep(G)) /\ ~InLine(N(W[i]), NDeep(G))
Edit(h) == n < MaxEdits /\ n' = n + 1 /\ how' = h
Hit == Edit("cosmic ray outside the windows") /\
       \E i \in 1..Len(W) : Outside(i) /\ f' = [f EXCEPT ![i] = "1000"]
Brighten == Edit("brighter") /\ f' = Str(Scale(N("8"), NDeep(f)))
Flatten == Edit("added quadratic") /\
       f' = [i \in 1..Len(W) |-> NStr(N(f[i]) ++ (N("20") ++ (((N(W[i]) -- N("5000")) ** (N(W[i]) -- N("4950"))) // N("64"))))]
Emit == Edit("line") /\ \E i \in 1..Len(W) :
       InLine(N(W[i]), NDeep(G)) /\ f' = [f EXCEPT ![i] = NStr(N(f[i]) ++ N("5"))]
Next == Hit \/ Brighten \/ Flatten \/ Emit
Spec == Init /\ [][Next]_vars
Near(a, b) == Close(a, b, N("1e-12"), N("1e-10"))
Effects == [][
    /\ how' = "cosmic ray outside the windows" => Near(Flux(f'), Flux(f)) /\ Near(Width(f'), Width(f))
    /\ how' = "brighter" => Near(Flux(f'), N("8") ** Flux(f)) /\ Near(Width(f'), Width(f))
    /\ how' = "added quadratic" => Near(Flux(f'), Flux(f))
    /\ how' = "line" => NGt(Flux(f'), Flux(f) ++ N("9"))]_vars
\* the fit is the best: its residuals are orthogonal to 1, u and u^2
Orthogonal == LET pts == Pick(NDeep(W), NDeep(f), NDeep(G))
                  q == Fit(f)
                  r == TLCEval([i \in 1..Len(pts) |-> pts[i][2] -- At(q, pts[i][1])])
                  x == TLCEval([i \in 1..Len(pts) |-> pts[i][1] -- N("5000")])
              IN Near(VSum(r), Zero) /\ Near(VDot(r, x), Zero) /\ Near(VDot(r, VMul(x, x)), Zero)
QuadraticHasNoLine == (how = "start" /\ f # <<"1", "1.5", "1.2", "3", "7", "9", "6", "2", "1", "1.1", "0.7">>)
                         => Near(Flux(f), Zero)
EmitCases == PrintT("CASE " \o ToJson([w |-> W, f |-> f, g |-> G, how |-> how]))
=============================================================================
