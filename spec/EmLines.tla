------------------------------ MODULE EmLines ------------------------------
(***************************************************************************)
(* Emission lines.  A line has a name, a wavelength and luminosities; the  *)
(* three travel together.                                                  *)
(***************************************************************************)
EXTENDS Strings, Vec

\* one text line of the FSPS list, "wavelength,label"
SafeChar(c) == IF c \in {"-", " "} THEN "_" ELSE IF c = "." THEN "p"
               ELSE IF c \in {"[", "]"} THEN "" ELSE c
SafeName(label) == Join([i \in 1..Len(label) |-> SafeChar(Ch(label, i))])
ParseLine(raw) ==
    LET s == Strip(raw) k == FindFrom(s, ",", 1) IN
    [wave |-> SubSeq(s, 1, k - 1), name |-> SafeName(Rest(s, k + 1))]
ParseList(text) == TLCEval([i \in 1..Len(text) |-> ParseLine(text[i])])

\* position of a name in a sequence of names, 0 if it is not there
Pos(names, n) ==
    LET hit == {i \in 1..Len(names) : names[i] = n} IN
    IF hit = {} THEN 0 ELSE CHOOSE i \in hit : TRUE
Known(names, want) == \A i \in 1..Len(want) : Pos(names, want[i]) > 0
PickFrom(seq, idx) == TLCEval([i \in 1..Len(idx) |-> seq[idx[i]]])
\* d has names, lwave, llum[z][a][line], among other fields that stay
Subset(d, want) ==
    LET idx == TLCEval([i \in 1..Len(want) |-> Pos(d.names, want[i])]) IN
    [d EXCEPT !.names = want, !.lwave = PickFrom(@, idx),
              !.llum = TLCEval([z \in 1..Len(@) |-> [a \in 1..Len(@[z]) |-> PickFrom(@[z][a], idx)]])]

(* ---- populations from FSPS ---------------------------------------------- *)
(* The stand-in for FSPS that the checks use: population z of the grid, made  *)
(* with the nebular switch neb and keywords kws = <<[k |-> name, v |-> value], *)
(* ...>>, has this value at age index a and wavelength (or line) index j.      *)
KwTerm(k) == (N(CASE k.k = "gas_logz" -> "3" [] k.k = "gas_logu" -> "7"
                  [] k.k = "imf_type" -> "13" [] OTHER -> "29")) ** (N("1") ++ (N(k.v) // N("10")))
KwSum(kws) == VSum([i \in 1..Len(kws) |-> KwTerm(kws[i])])
StandIn(z, a, j, neb, kws) ==
    ((N(ToString(1000 * z + 37 * a)) ++ (N(ToString(j)) // N("7"))) ** (IF neb THEN N("2") ELSE One))
    ** (One ++ KwSum(kws))
\* name of a line wavelength: that of the one listed line within a part in 1e6
NameOf(list, w) ==
    LET hit == {i \in 1..Len(list) : Close(N(w), N(list[i].wave), N("1e-6"), Zero)} IN
    IF Cardinality(hit) = 1 THEN list[CHOOSE i \in hit : TRUE].name ELSE ""
Grid3(nz, na, nj, f(_, _, _)) ==
    TLCEval([z \in 1..nz |-> TLCEval([a \in 1..na |-> TLCEval([j \in 1..nj |-> f(z, a, j)])])])
\* cfg: zlegend, log_age, wave, lines, lwave; list: the parsed line list
Retrieved(cfg, list, neb, kws) ==
    LET nz == Len(cfg.zlegend) na == Len(cfg.log_age) nw == Len(cfg.wave) nl == Len(cfg.lwave)
        flux(z, a, j) == StandIn(z, a, j, neb, kws)
        lum(z, a, j) == (StandIn(z, a, j, neb, kws)) // N("1000")
    IN [lgmet |-> TLCEval([i \in 1..nz |-> NLog10(N(cfg.zlegend[i]))]),
        lgage |-> TLCEval([i \in 1..na |-> (N(cfg.log_age[i])) -- N("9")]),
        wave  |-> TLCEval(NDeep(cfg.wave)),
        flux  |-> Grid3(nz, na, nw, flux),
        lines |-> cfg.lines,
        names |-> TLCEval([i \in 1..nl |-> NameOf(list, cfg.lwave[i])]),
        lwave |-> TLCEval(NDeep(cfg.lwave)),
        llum  |-> IF cfg.lines THEN Grid3(nz, na, nl, lum) ELSE << >>]
=============================================================================
