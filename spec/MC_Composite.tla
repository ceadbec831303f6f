---------------------------- MODULE MC_Composite ----------------------------
(* A small galaxy of 2 x 2 templates is given stars, dust and distance; at
   every moment its photometry is the sum of its templates' photometry. *)
EXTENDS Composite, Json
CONSTANTS Levels, Shares, Avs, Zs, Laws, NFilter
VARIABLES tmpl, share, mass, av, law, z, f
vars == <<tmpl, share, mass, av, law, z, f>>
Wave == <<"900", "1500", "2000", "3500", "5000", "9000">>
Ws == NDeep(Wave)
FiltersC == << <<"1400", "1800", "2600">>, <<"3000", "4200", "5200", "6000">>, <<"8000", "8800", "9500">> >>
TransC   == << <<"0", "1", "0.5">>, <<"0.1", "0.9", "1", "0">>, <<"0.2", "0.8", "0.8">> >>
Tiny == N("1e-30")
\* template (i, j): a shape scaled by its level
Shape(i, j) == TLCEval([k \in 1..Len(Wave) |-> N(((i * k + j * k * k) % 5) + 1)])
Flux(t) == TLCEval([i \in 1..2 |-> TLCEval([j \in 1..2 |-> Scale(N(t[2 * i + j - 2]), Shape(i, j))])])
ShareTab == << <<"0.25", "0.25", "0.25">>, <<"0.7", "0", "0.1">> >>
W(k) == LET s == ShareTab[k] IN << <<N(s[1]), N(s[2])>>, <<N(s[3]), One -- (N(s[1]) ++ (N(s[2]) ++ N(s[3])))>> >>
\* wavelengths in micron
Trans(lw, a) ==
    TLCEval([k \in 1..Len(Ws) |-> LET u == Ws[k] ** N("1e-4") IN
        Screens!Transmission(Screens!Reddening(lw, u, NDeep(<<"0.85", "-0.2", "0.2175", "0.035">>)),
                             N(a), Zero)])
Init == /\ tmpl \in [1..4 -> Levels] /\ share \in Shares /\ mass = "1" /\ av = "0"
        /\ law \in Laws /\ z = "0" /\ f \in 1..NFilter
Grow == mass = "1" /\ mass' = "3e9" /\ UNCHANGED <<tmpl, share, av, law, z, f>>
Redden == av = "0" /\ av' \in Avs /\ UNCHANGED <<tmpl, share, mass, law, z, f>>
Push == z = "0" /\ z' \in Zs /\ UNCHANGED <<tmpl, share, mass, av, law, f>>
Next == Grow \/ Redden \/ Push
Spec == Init /\ [][Next]_vars
Zp1(q) == One ++ N(q)
Sed(t, s, m, lw, a) == Behind(Trans(lw, a), Spectrum(N(m), W(s), Flux(t)))
Seen(t, s, m, lw, a, q, g) ==
    RelFlux(Ws, Sed(t, s, m, lw, a), NDeep(FiltersC[g]), NDeep(TransC[g]), Zp1(q))
Photometry34 ==
    Close(Seen(tmpl, share, mass, law, av, z, f),
          GalaxyFlux(N(mass), W(share), Ws, BehindAll(Trans(law, av), Flux(tmpl)),
                     NDeep(FiltersC[f]), NDeep(TransC[f]), Zp1(z)), Tiny, Tiny)
ScreenCommutes ==
    LET a == Sed(tmpl, share, mass, law, av)
        b == Spectrum(N(mass), W(share), BehindAll(Trans(law, av), Flux(tmpl)))
    IN \A k \in 1..Len(a) : Close(a[k], b[k], Tiny, Tiny)
GrowthScales == [][(mass' # mass /\ UNCHANGED <<tmpl, share, av, law, z, f>>) =>
    Close(Seen(tmpl, share, mass', law, av, z, f),
          N("3e9") ** Seen(tmpl, share, mass, law, av, z, f), Tiny, Tiny)]_vars
DustDims == [][(av' # av /\ UNCHANGED <<tmpl, share, mass, law, z, f>>) =>
    NLe(Seen(tmpl, share, mass, law, av', z, f), Seen(tmpl, share, mass, law, av, z, f) ++ Tiny)]_vars
EmitCases == (mass = "1" /\ z # "0" /\ av # "0") =>
    PrintT("CASE " \o ToJson([tmpl |-> tmpl, share |-> ShareTab[share], av |-> av, law |-> law, z |-> z,
        ws |-> Wave, wf |-> FiltersC[f], tf |-> TransC[f],
        shapes |-> [k \in 1..4 |-> [q \in 1..Len(Wave) |-> ((((k + 1) \div 2) * q + (2 - (k % 2)) * q * q) % 5) + 1]]]))
=============================================================================
