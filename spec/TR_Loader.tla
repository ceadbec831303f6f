----------------------------- MODULE TR_Loader -----------------------------
(* Trace validation of the loaders: the disk, the environment and the loads
   of a session, against Loader. *)
EXTENDS Loader, TraceBase
\* held: what earlier loads returned
Empty == [disk |-> {}, dirs |-> {}, env |-> None, held |-> << >>, links |-> << >>]
Fs == [dirs |-> st.dirs, links |-> st.links]
\* a file of the given name leads to another place, from now on
Linked == IsOp("link") /\ Step(F("link", Ev.out.err = ""), [st EXCEPT !.links = (Ev.in.at :> Ev.in.to) @@ @])
Begin == IsOp("begin") /\ Step({}, Empty)
LSun == N("3.828e33")

\* data written to disk is kept as the event that wrote it
Written ==
    /\ IsOp("write")
    /\ Step(F("write", Ev.out.err = ""),
            [st EXCEPT !.disk = Put(@, Ev.in.dir, Ev.in.name, Ev.in.data), !.dirs = @ \cup {Ev.in.dir}])
Removed == IsOp("remove") /\ Step({}, [st EXCEPT !.disk = Drop(@, Ev.in.dir, Ev.in.name)])
Moved == IsOp("move") /\
    Step({}, [st EXCEPT !.disk = MoveTo(@, Ev.in.dir, Ev.in.name, Ev.in.dir2, Ev.in.name2)])
RmDir == IsOp("rmdir") /\ Step({}, [st EXCEPT !.dirs = @ \ {Ev.in.dir},
                                              !.disk = {e \in @ : e.dir # Ev.in.dir}])
MkDir == IsOp("mkdir") /\ Step({}, [st EXCEPT !.dirs = @ \cup {Ev.in.dir}])
Env == IsOp("env") /\ Step({}, [st EXCEPT !.env = Ev.in.dir])

Eps(dt) == IF dt \in {"float32", ">f4"} THEN N("3e-7") ELSE N("1e-15")
RECURSIVE Near(_, _, _, _, _)
\* a is b times c, entry by entry; both are nested d deep
Near(a, b, c, eps, d) ==
    IF d = 0 THEN Close(N(a), N(b) ** c, eps, Zero)
    ELSE Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i], c, eps, d - 1)

SspClauses(o, d) ==
    F("log metallicities are the file's", o.lgmet = d.lgmet)
    \cup F("log ages are the file's", o.lgage = d.lgage)
    \cup F("wavelengths are the file's", o.wave = d.wave)
    \cup F("fluxes are the file's", o.flux = d.flux)
    \cup F("line fields are there iff the file has lines", o.lines = d.lines)
    \cup (IF d.lines /\ o.lines THEN
            F("line names are the file's, in order", o.names = d.names)
            \cup F("line wavelengths go with their names", Near(o.lwave, d.lwave.v, One, N("1e-15"), 1))
            \cup F("line luminosities are the file's times 3.828e33",
                   /\ o.llum.sh = d.llum.sh
                   /\ Near(o.llum.v, d.llum.v, LSun, Eps(d.llum.dt), 3))
          ELSE {})
Outcome(want) == F("outcome of the load is " \o (IF want.err = "" THEN "a return" ELSE want.err)
                   \o " (was " \o (IF Ev.out.err = "" THEN "a return" ELSE Ev.out.err) \o ")",
                   Ev.out.err = want.err)
LoadSsp ==
    /\ IsOp("load_ssp")
    /\ LET want == IF Ev.in.dummy THEN [err |-> "", dir |-> "", name |-> ""]
                   ELSE IF st.links = << >> THEN SspFile(st.disk, st.env, Ev.in.a)
                   ELSE SspFileVia(st.disk, Fs, st.env, Ev.in.a) IN
       Step(Outcome(want) \cup
            (IF want.err # "" \/ Ev.out.err # "" THEN {}
             ELSE IF Ev.in.dummy
             THEN F("dummy data when asked for", Ev.out.dummy)
             ELSE F("no dummy data unless asked for", ~Ev.out.dummy)
                  \cup (IF Ev.out.dummy THEN {} ELSE SspClauses(Ev.out, DataAt(st.disk, want.dir, want.name)))),
            IF Ev.out.err = "" /\ ~Ev.in.dummy THEN [st EXCEPT !.held = Append(@, Ev.out)] ELSE st)
\* what was returned earlier is still what it was
Recall ==
    /\ IsOp("recall")
    /\ Step(F("an earlier result is unchanged", st.held # << >> => Ev.out.was = st.held[Ev.in.k]), st)

\* a file which holds no data
Junk(w) == w.err = "" /\ "junk" \in DOMAIN DataAt(st.disk, w.dir, w.name)
Values(x) == {N(x[i]) : i \in 1..Len(x)}
Unphysical(t) == \E i \in 1..Len(t) : NLt(N(t[i]), N("-0.01")) \/ NGt(N(t[i]), N("1.01"))
FilterClauses(o, d) ==
    F("wavelengths are the file's", o.wave = d.wave)
    \cup Shaped("transmission", o.trans, d.trans.sh,
         F("transmissions are the file's, clipped to [0, 1]",
           o.trans.dt = d.trans.dt /\
           \A i \in 1..Len(d.trans.v) : LET t == N(d.trans.v[i]) u == N(o.trans.v[i]) IN
              (NIsNaN(t) /\ NIsNaN(u)) \/ NEq(u, NClip(t, Zero, One))))
\* a directory inside the one searched, with a name the pattern matches too
DirMatches(a) ==
    /\ a.fn = << >> /\ (a.drn # None \/ st.env # None)
    /\ LET d == (IF a.drn # None THEN a.drn ELSE FilterDir(st.env)) \o "/" IN
       \E x \in st.dirs : /\ Len(x) > Len(d) /\ SubSeq(x, 1, Len(d)) = d
                          /\ FindFrom(x, "/", Len(d) + 1) = 0 /\ Glob(a.pat, Rest(x, Len(d) + 1))
LoadFilter ==
    /\ IsOp("load_filter")
    /\ IF DirMatches(Ev.in.a) THEN Step(Silent("a directory has a name the pattern matches"),
            IF Ev.out.err = "" THEN [st EXCEPT !.held = Append(@, Ev.out)] ELSE st) ELSE
       LET w0 == IF st.links = << >> THEN FilterFile(st.disk, st.dirs, st.env, Ev.in.a)
                 ELSE FilterFileVia(st.disk, Fs, st.env, Ev.in.a)
           bad0 == w0.err = "" /\ ~Junk(w0) /\ Unphysical(DataAt(st.disk, w0.dir, w0.name).trans.v)
           want == IF bad0 THEN Fail("ValueError") ELSE w0
       IN IF Junk(w0) THEN Step(F("data come from the designated file", Ev.out.err # ""), st) ELSE
          Step(Outcome(want) \cup
               (IF want.err # "" \/ Ev.out.err # "" THEN {}
                ELSE FilterClauses(Ev.out, DataAt(st.disk, want.dir, want.name))),
               IF Ev.out.err = "" THEN [st EXCEPT !.held = Append(@, Ev.out)] ELSE st)

TraceNext == Begin \/ Linked \/ Written \/ Removed \/ Moved \/ RmDir \/ MkDir \/ Env \/ LoadSsp \/ Recall \/ LoadFilter
TraceSpec == TraceStart(Empty) /\ [][TraceNext]_traceVars
=============================================================================
