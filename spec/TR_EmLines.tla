---------------------------- MODULE TR_EmLines ----------------------------
(* Trace validation of emission-line tables, of retrieval from (a stand-in
   for) FSPS, export and reload, and of the synthetic data. *)
EXTENDS EmLines, TraceBase
\* d: the data held; disk: file name -> exported data; cfg, list: what FSPS offers
Empty == [d |-> << >>, disk |-> << >>, cfg |-> << >>, list |-> << >>]
Begin == IsOp("begin") /\ Step({}, Empty)
LSun == N("3.828e33")

RECURSIVE Near(_, _, _, _)
Near(a, b, eps, d) ==
    IF d = 0 THEN Close(a, b, eps, Zero)
    ELSE Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i], eps, d - 1)

(* ---- subsets ------------------------------------------------------------- *)
\* numerals are compared as written: nothing may be recomputed
Make == IsOp("make") /\ Step({}, [st EXCEPT !.d = [names |-> Ev.in.names, lwave |-> Ev.in.lwave,
                                                 llum |-> Ev.in.llum, rest |-> Ev.in.rest]])
Same(o, d) == o.names = d.names /\ o.lwave = d.lwave /\ o.llum = d.llum /\ o.rest = d.rest
Narrow ==
    /\ IsOp("subset")
    /\ LET known == Known(st.d.names, Ev.in.want)
           d2 == IF known THEN Subset(st.d, Ev.in.want) ELSE st.d
       IN IF ~known
          THEN Step(F("an unknown line raises ValueError", Ev.out.err = "ValueError")
                    \cup F("the data given is left alone", Same(Ev.out.given, st.d)), st)
          ELSE Step(Returned(Ev,
                 F("exactly the requested lines, in order", Ev.out.names = d2.names)
                 \cup F("each line keeps its wavelength", Ev.out.lwave = d2.lwave)
                 \cup F("each line keeps its luminosities", Ev.out.llum = d2.llum)
                 \cup F("other arrays are unchanged", Ev.out.rest = d2.rest)
                 \cup F("the data given is left alone", Same(Ev.out.given, st.d))),
               [st EXCEPT !.d = d2])
Parse ==
    /\ IsOp("parse")
    /\ LET want == ParseList(Ev.in.text) n == Len(want) IN
       Step(Returned(Ev,
            F("one entry per line", Ev.out.names = [i \in 1..n |-> want[i].name])
            \cup F("each name has its line's wavelength",
                   /\ Len(Ev.out.waves) = n
                   /\ \A i \in 1..n : NEq(N(Ev.out.waves[i]), N(want[i].wave)) \/
                        Close(N(Ev.out.waves[i]), N(want[i].wave), N("2.3e-16"), Zero))
            \cup F("the wavelength array is in file order",
                   Ev.in.testmode => Ev.out.array = Ev.out.waves)), st)

(* ---- FSPS ----------------------------------------------------------------- *)
Fsps == IsOp("fsps") /\ Step({}, [st EXCEPT !.cfg = Ev.in.cfg, !.list = ParseList(Ev.in.list)])
Arrays(o, d, scale, eps) ==
    LET nz == Len(d.lgmet) na == Len(d.lgage) nw == Len(d.wave) nl == Len(d.lwave) IN
    Shaped("log metallicity", o.lgmet, <<nz>>, F("log10 of FSPS's metallicities", Near(Out(o.lgmet), d.lgmet, eps, 1)))
    \cup Shaped("log age", o.lgage, <<na>>, F("FSPS's log ages minus 9",
            AllClose(Out(o.lgage), d.lgage, eps, N("4e-15"))))
    \cup Shaped("wavelengths", o.wave, <<nw>>, F("FSPS's wavelengths", Near(Out(o.wave), d.wave, eps, 1)))
    \cup Shaped("flux", o.flux, <<nz, na, nw>>,
            F("one spectrum per metallicity, with the keywords", Near(Out(o.flux), d.flux, eps, 3)))
    \cup F("line fields are there iff FSPS has lines", o.lines = d.lines)
    \cup (IF o.lines = TRUE /\ d.lines THEN
            F("lines are named by wavelength, in order", o.names = d.names)
            \cup F("line wavelengths are FSPS's", Near(NDeep(o.lwave), d.lwave, eps, 1))
            \cup Shaped("luminosities", o.llum, <<nz, na, nl>>,
                 F("line luminosities of each metallicity" \o (IF NEq(scale, One) THEN "" ELSE ", times 3.828e33"),
                   \A z \in 1..nz : \A a \in 1..na : \A j \in 1..nl :
                      Close(N(o.llum.v[z][a][j]), (d.llum[z][a][j]) ** scale, eps, Zero)))
          ELSE {})
Eps == N("1e-14")
Retrieve ==
    /\ IsOp("retrieve")
    /\ LET want == Retrieved(st.cfg, st.list, Ev.in.neb, Ev.in.kws) IN
       Step(Returned(Ev, Arrays(Ev.out, want, One, Eps)), [st EXCEPT !.d = want])
Put(disk, name, d) == <<[name |-> name, data |-> d]>> \o SelectSeq(disk, LAMBDA e : e.name # name)
Export ==
    /\ IsOp("export")
    /\ LET want == Retrieved(st.cfg, st.list, TRUE, Ev.in.kws) IN
       Step(Returned(Ev, {}), [st EXCEPT !.disk = Put(@, Ev.in.name, want)])
Load ==
    /\ IsOp("load")
    /\ LET k == CHOOSE k \in 1..Len(st.disk) : st.disk[k].name = Ev.in.name IN
       Step(Returned(Ev, Arrays(Ev.out, st.disk[k].data, LSun, Eps)), st)

(* ---- synthetic data --------------------------------------------------------- *)
Nz == 22
Na == 94
Nw == 1963
ZLegend == <<"0.0002", "0.0003", "0.0004", "0.0005", "0.0006", "0.0008", "0.001", "0.0012", "0.0016", "0.002", "0.0025",
             "0.0031", "0.0039", "0.0049", "0.0061", "0.0077", "0.0096", "0.012", "0.015", "0.019", "0.024", "0.03">>
FakeWave == TLCEval([i \in 1..Nw |-> N("100") ++ ((N("19900") ** N(i - 1)) // N(Nw - 1))])
Fake ==
    /\ IsOp("fake")
    /\ Step(Returned(Ev,
         LET o == Ev.out n == Ev.in.n IN
         F("shapes", o.shapes = <<<<Nz>>, <<Na>>, <<Nw>>, <<Nz, Na, Nw>>>>)
         \cup F("metallicities increase", Increasing(NDeep(o.lgmet)))
         \cup F("ages increase", Increasing(NDeep(o.lgage)))
         \cup F("wavelengths increase", Increasing(NDeep(o.wave)))
         \cup F("metallicities are those of the MIST grid",
                AllClose(NDeep(o.lgmet), [i \in 1..Nz |-> NLog10(N(ZLegend[i]))], Eps, Eps))
         \cup F("ages are every 0.05 dex from 10^-3.5 Gyr",
                AllClose(NDeep(o.lgage), [i \in 1..Na |-> N("-3.5") ++ (N(i - 1) ** N("0.05"))], N("1e-13"), N("1e-13")))
         \cup F("wavelengths are equally spaced from 100 to 20000 Angstroms",
                AllClose(NDeep(o.wave), FakeWave, N("1e-13"), Zero))
         \cup F("fluxes are positive and finite", o.nbad = 0)
         \cup F("fluxes are the tabulated power laws",
                \A i \in 1..Len(o.picks) : LET p == o.picks[i] IN
                  Close(N(p.f), NPow10((N(p.c0)) ++ ((N(p.c1)) ** NLog10(N(p.w)))), N("1e-12"), Zero))
         \cup (IF n = 0 THEN F("no line fields without lines", o.lines = FALSE)
               ELSE IF o.lines # TRUE THEN {"line fields are there"}
               ELSE F("n distinct lines", Len(o.names) = n /\ Cardinality({o.names[i] : i \in 1..Len(o.names)}) = n)
                    \cup F("line wavelengths increase", Len(o.lwave) = n /\ Increasing(NDeep(o.lwave)))
                    \cup F("line wavelengths are equally spaced in log from 10^3 to 10^6 Angstroms",
                         Len(o.lwave) = n /\ \A i \in 1..n : Close(N(o.lwave[i]),
                            IF n = 1 THEN N("1e3") ELSE NPow10(N("3") ++ ((N("3") ** N(i - 1)) // N(n - 1))), N("1e-12"), Zero))
                    \cup F("luminosities lie between 1e-70 and 1e3 solar luminosities",
                         NGe(N(o.lmin), N("0.999999e-70") ** LSun) /\ NLe(N(o.lmax), N("1.000001e3") ** LSun))
                    \cup F("one in five lines of every template is faint", o.faint = <<n \div 5>>)
                    \cup F("luminosities have shape (n_met, n_age, n_line)", o.lshape = <<Nz, Na, n>>)
                    \cup F("luminosities are positive and finite", o.lbad = 0))), st)
\* the bands u g r i z y: Gaussians of log10 wavelength, <<centre, width, area>>
Bands == << <<"3.57", "0.022", "80">>, <<"3.68", "0.04", "20">>, <<"3.79", "0.03", "25">>,
            <<"3.875", "0.025", "30">>, <<"3.935", "0.017", "47">>, <<"3.985", "0.017", "85">> >>
RootTwoPi == N("2.506628274631000502415765284811")
Band(b, w) ==
    LET x == (NLog10(w) -- N(b[1])) // N(b[2]) IN
    NExp((x ** x) // N("-2")) // ((N(b[2]) ** RootTwoPi) ** N(b[3]))
FakeFilters ==
    /\ IsOp("fake_filters")
    /\ Step(Returned(Ev,
         F("filters are on the template wavelengths", Ev.out.wave = Ev.out.swave)
         \cup F("six filters", Len(Ev.out.trans) = 6 /\ \A k \in 1..6 : Len(Ev.out.trans[k]) = Len(Ev.out.wave))
         \cup F("the filters are the bands u, g, r, i, z and y in order",
                \A k \in 1..6 : \A i \in 1..Len(Ev.out.wave) :
                   Close(N(Ev.out.trans[k][i]), Band(Bands[k], N(Ev.out.wave[i])), N("1e-9"), N("1e-30")))
         \cup F("transmissions lie in [0, 1]",
                \A k \in 1..Len(Ev.out.trans) : \A i \in 1..Len(Ev.out.trans[k]) :
                  LET t == N(Ev.out.trans[k][i]) IN NLe(Zero, t) /\ NLe(t, One))), st)
TraceNext == Begin \/ Make \/ Narrow \/ Parse \/ Fsps \/ Retrieve \/ Export \/ Load \/ Fake \/ FakeFilters
TraceSpec == TraceStart(Empty) /\ [][TraceNext]_traceVars
=============================================================================
