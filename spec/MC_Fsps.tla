------------------------------ MODULE MC_Fsps ------------------------------
(* Retrieving from FSPS one metallicity at a time, exporting to a file that
   may already hold another library, and loading it back. *)
EXTENDS EmLines, Json
CONSTANTS MaxMet
VARIABLES cfg, z, got, file, loaded, phase
vars == <<cfg, z, got, file, loaded, phase>>
None == "none"
Cfgs == [nz : 1..MaxMet, lines : BOOLEAN, neb : BOOLEAN, kw : {"0", "0.25"}]
Spectrum(c, i) == <<i, c.neb, c.kw>>
Init == cfg \in Cfgs /\ z = 0 /\ got = << >> /\ file = None /\ loaded = None /\ phase = "retrieve"
Step1 == /\ phase = "retrieve" /\ z < cfg.nz /\ z' = z + 1
         /\ got' = Append(got, [spec |-> Spectrum(cfg, z'), lum |-> IF cfg.lines THEN Spectrum(cfg, z') ELSE None])
         /\ UNCHANGED <<cfg, file, loaded, phase>>
Export == /\ phase = "retrieve" /\ z = cfg.nz /\ file' = [data |-> got, lines |-> cfg.lines]
          /\ phase' = "exported" /\ UNCHANGED <<cfg, z, got, loaded>>
Load == /\ phase = "exported" /\ loaded' = file /\ phase' = "loaded" /\ UNCHANGED <<cfg, z, got, file>>
\* another library is retrieved and written over the same file
Again == /\ phase = "loaded" /\ \E c \in Cfgs : c # cfg /\ cfg' = c
         /\ z' = 0 /\ got' = << >> /\ phase' = "retrieve" /\ UNCHANGED <<file, loaded>>
Next == Step1 \/ Export \/ Load \/ Again
Spec == Init /\ [][Next]_vars
InOrder == \A i \in 1..Len(got) : got[i].spec = Spectrum(cfg, i)
ReloadIsRetrieval == phase = "loaded" => loaded = [data |-> got, lines |-> cfg.lines]
NoStaleLines == phase = "loaded" => (loaded.lines <=> cfg.lines)
EmitCases == phase # "loaded" \/ PrintT("CASE " \o ToJson(cfg))
=============================================================================
