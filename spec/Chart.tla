------------------------------- MODULE Chart -------------------------------
(***************************************************************************)
(* The diagnostic chart of the mass-metallicity relation: two models, each *)
(* at five cosmic times, over points measured at z = 0, and a legend that  *)
(* says which is which.                                                    *)
(***************************************************************************)
EXTENDS Params

\* cosmic times drawn, Gyr; the first is about z = 3, the last z = 0
ChartTimes == <<"2", "5", "8", "11", "14">>
\* a curve is [x, y, style, color]; the model with parameters p at time t
DrawsModel(c, p, t, rtol, atol) ==
    \A i \in 1..Len(c.x) : Close(c.y[i], MzrModel("umzr", c.x[i], N(t), p), rtol, atol)
\* points measured relative to the sun are drawn as absolute metallicity
Absolute(lgz) == lgz ++ LgMetSolar
\* the entry of legend g that says lbl
Says(g, lbl) == {i \in 1..Len(g) : g[i].label = lbl}
Tagged(g, tag) == {i \in 1..Len(g) : tag \in {g[i].tags[j] : j \in 1..Len(g[i].tags)}}
=============================================================================
