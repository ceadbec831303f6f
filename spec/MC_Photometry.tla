---------------------------- MODULE MC_Photometry ----------------------------
(* A source is observed; between observations it brightens, changes where
   the filter does not look, is pushed in redshift, or the filter is replaced. *)
EXTENDS Photometry, Json, FiniteSets
CONSTANTS Levels, Factors, NFilter, Zs
VARIABLES sed, f, z, scale
vars == <<sed, f, z, scale>>
Wave == <<"1000", "1500", "2000", "3000", "4000", "6000", "9000">>
\* filters <<wave, trans>>: inside, partly outside, narrow, irregular, outside when redshifted
FiltersC == << <<"1500", "2000", "2500", "3000">>, <<"3500", "4000", "5000", "6500", "8000">>,
              <<"700", "900", "1200", "1600">>, <<"8000", "8800", "9500", "12000">>, <<"2990", "3000", "3010">> >>
TransC   == << <<"0", "1", "1", "0">>, <<"0.1", "0.5", "0.9", "0.4", "0">>,
              <<"0", "0.3", "0.6", "0.2">>, <<"0.2", "0.8", "0.8", "0.1">>, <<"0.5", "1", "0.5">> >>
Ws == NDeep(Wave)
Wf(i) == NDeep(FiltersC[i])
Tf(i) == NDeep(TransC[i])
Tiny == N("1e-30")
Init == /\ sed \in [1..Len(Wave) -> Levels] /\ f \in 1..NFilter /\ z = "0" /\ scale = "1"
Brighten == scale = "1" /\ scale' \in Factors /\ UNCHANGED <<sed, f, z>>
Push     == z = "0" /\ z' \in Zs /\ UNCHANGED <<sed, f, scale>>
Change   == /\ scale = "1" /\ \E i \in 1..Len(Wave), v \in Levels : sed' = [sed EXCEPT ![i] = v]
            /\ UNCHANGED <<f, z, scale>>
Next == Brighten \/ Push \/ Change
Spec == Init /\ [][Next]_vars
L(s, k) == Scale(N(k), NDeep(s))
Flux(s, g, zz, k) == RelFlux(Ws, L(s, k), Wf(g), Tf(g), One ++ N(zz))
Positive(s, g, zz, k) == NGt(Flux(s, g, zz, k), Zero)
NonNegative == NGe(Flux(sed, f, z, scale), Zero)
ScaleLaw == Close(Flux(sed, f, z, scale), N(scale) ** Flux(sed, f, z, "1"), Tiny, Tiny)
FilterScaleFree ==
    Close(RelFlux(Ws, L(sed, scale), Wf(f), Scale(N("3.7"), Tf(f)), One ++ N(z)),
          Flux(sed, f, z, scale), Tiny, Tiny)
FlatIsZeroMag ==
    LET flat == [i \in 1..Len(Wave) |-> AB0] IN
    (f \in {1, 2, 5} /\ z = "0") => Close(RelFlux(Ws, flat, Wf(f), Tf(f), One), One, Tiny, Tiny)
\* the node that changed is not adjacent to a node inside the filter => same flux
Lo(g) == Wf(g)[1]
Hi(g) == Wf(g)[Len(Wf(g))]
Sees(g, i, zz) ==
    LET n == Len(Wave) zp == One ++ N(zz)
        a == Ws[IF i = 1 THEN 1 ELSE i - 1] ** zp
        b == Ws[IF i = n THEN n ELSE i + 1] ** zp
    IN NLt(a, Hi(g)) /\ NGt(b, Lo(g))
OnlyInsideMatters == [][
    \A i \in 1..Len(Wave) : (/\ sed'[i] # sed[i] /\ ~Sees(f, i, z)
                             /\ ~NEq(Ws[i] ** (One ++ N(z)), Hi(f)) /\ ~NEq(Ws[i] ** (One ++ N(z)), Lo(f))
                             /\ UNCHANGED <<f, z, scale>>)
        => NEq(Flux(sed', f, z, scale), Flux(sed, f, z, scale))]_vars
MoreLightIsMoreFlux == [][(UNCHANGED <<f, z, scale>> /\ \A i \in 1..Len(Wave) : NLe(N(sed[i]), N(sed'[i])))
    => NLe(Flux(sed, f, z, scale), Flux(sed', f, z, scale) ++ Tiny)]_vars
EmitCases == (scale # "1" /\ z # "0") \/
    PrintT("CASE " \o ToJson([sed |-> sed, f |-> f, z |-> z, scale |-> scale,
                              wf |-> FiltersC[f], tf |-> TransC[f], ws |-> Wave]))
=============================================================================
