------------------------------ MODULE MC_Tables ------------------------------
(* Magnitude tables are filled one cell at a time, in any order; the finished
   table does not depend on the order and holds each template's own magnitude. *)
EXTENDS Photometry, Json, FiniteSets
CONSTANTS NMet, NAge, NFil, Zk
VARIABLES table, todo
vars == <<table, todo>>
Ws == NDeep(<<"1000", "2000", "4000", "8000">>)
\* every template and every filter is different
FluxS(i, j) == <<NStr(N(i)), NStr((N(j) // Two) ++ (N(i) // N("7"))), NStr(N(i + j * j) // N("3")), NStr(N(1 + i * j))>>
Wfs == <<"1500", "2000", "3000">>
Wf(f) == Scale(One ++ (N(f) // N("4")), NDeep(Wfs))
Tf(f) == << N("0.2"), One // N(f), N("0.1") >>
Cells == (1..NMet) \X (1..NAge) \X (1..NFil)
Cell(c) == KMag(Ws, NDeep(FluxS(c[1], c[2])), Wf(c[3]), Tf(c[3]), N(Zk))
Init == todo = Cells /\ table = [c \in Cells |-> ""]
Fill == \E c \in todo : table' = [table EXCEPT ![c] = NStr(Cell(c))] /\ todo' = todo \ {c}
Next == Fill
Spec == Init /\ [][Next]_vars
FilledAreRight == \A c \in Cells \ todo : Close(N(table[c]), Cell(c), N("1e-15"), Zero)
Distinct == \A c, d \in Cells \ todo : c # d => ~NEq(N(table[c]), N(table[d]))
AtZeroRest == Zk = "0" => \A c \in Cells \ todo :
    Close(N(table[c]), RestMag(Ws, NDeep(FluxS(c[1], c[2])), Wf(c[3]), Tf(c[3])), N("1e-15"), Zero)
Strs(v) == [i \in 1..Len(v) |-> NStr(v[i])]
EmitCases == todo # {} \/ PrintT("CASE " \o ToJson([
    ws |-> Strs(Ws), zk |-> Zk, zs |-> <<"0.25", "1", "2">>, c |-> <<"0.3075", "-1", "0", "0.6774">>,
    flux |-> [i \in 1..NMet |-> [j \in 1..NAge |-> FluxS(i, j)]],
    wfs |-> [f \in 1..NFil |-> Strs(Wf(f))], tfs |-> [f \in 1..NFil |-> Strs(Tf(f))]]))
=============================================================================
