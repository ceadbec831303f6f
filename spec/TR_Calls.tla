----------------------------- MODULE TR_Calls -----------------------------
(* Trace validation of calls as such: their histories, threads, batches,
   transformations and processes. *)
EXTENDS Calls, TraceBase
(* mem: what each call's result is (key -> result); buf: version of each
   argument buffer; run: the calls the threads are in; res: finished results;
   consts: the package's public tables; loaded: something of the package has
   been imported by the process *)
Empty == [mem |-> << >>, buf |-> << >>, run |-> << >>, res |-> << >>, consts |-> << >>, loaded |-> FALSE]
Begin == IsOp("begin") /\ Step({}, Empty)
Eps == N("1e-10")
Known(k) == k \in DOMAIN st.mem
Learn(k, r) == [st EXCEPT !.mem = (k :> r) @@ @]

\* the result of a call, made elsewhere (or earlier) with nothing else going on
Reference ==
    /\ IsOp("reference")
    /\ Step(Returned(Ev, F("the same result again", Known(Ev.in.key) => SameResult(Ev.out.r, st.mem[Ev.in.key], Eps))),
            IF Ev.out.err = "" THEN Learn(Ev.in.key, Ev.out.r) ELSE st)

(* ---- histories and threads ------------------------------------------------ *)
Key(f, o, v) == f \o "/" \o o \o "/" \o v
SetBuf == IsOp("set") /\ Step({}, [st EXCEPT !.buf = (Ev.in.o :> Ev.in.v) @@ @])
StartCall ==
    /\ IsOp("start")
    /\ Step({}, [st EXCEPT !.run = (Ev.in.t :> Key(Ev.in.f, Ev.in.o, st.buf[Ev.in.o])) @@ @])
Finish ==
    /\ IsOp("finish")
    /\ LET k == st.run[Ev.in.t] IN
       Step(Returned(Ev,
              F("the result the same arguments always have", Known(k) => SameResult(Ev.out.r, st.mem[k], Eps))
              \cup F("arguments are left as they were", Ev.out.same)),
            [st EXCEPT !.res = Append(@, Ev.out.r)])
Fails == IsOp("fail") /\ Step({}, st)
Recall ==
    /\ IsOp("recall")
    /\ Step(F("an earlier result is unchanged", Ev.out.r = st.res[Ev.in.k]), st)
\* whoever asked for a result works on it in place: that is nobody else's business
Scribble == IsOp("scribble") /\ Step({}, [st EXCEPT !.res[Ev.in.k] = Ev.out.r])
Consts ==
    /\ IsOp("consts")
    /\ Step(F("public tables, defaults and process settings are unchanged", st.consts = << >> \/ Ev.out.c = st.consts),
            IF st.consts = << >> THEN [st EXCEPT !.consts = Ev.out.c] ELSE st)

(* ---- ways of calling ------------------------------------------------------- *)
Tol == N("1e-9")
Variant ==
    /\ IsOp("variant")
    /\ Step(Returned(Ev, F("same result when " \o Ev.in.kind, SameResult(Ev.out.r, st.mem[Ev.in.key], Tol))), st)
Elements(r, keys) ==
    \A k \in 1..Len(keys) : SameResult(Element(r, k), st.mem[keys[k]], Tol)
Batch ==
    /\ IsOp("batch")
    /\ LET n == Len(Ev.in.keys) IN
       Step(Returned(Ev,
              IF ~Batched(Ev.out.r, n) THEN {"one element per input"}
              ELSE F("each element is the single call's result", Elements(Ev.out.r, Ev.in.keys))), st)
Batch2 ==
    /\ IsOp("batch2")
    /\ LET n == Len(Ev.in.keys) IN
       Step(Returned(Ev,
              IF ~Batched(Ev.out.r, n) THEN {"one element per input"}
              ELSE F("each element is the single call's result",
                     \A k \in 1..n : LET e == Element(Ev.out.r, k) IN
                        Batched(e, Len(Ev.in.keys[k])) /\ Elements(e, Ev.in.keys[k]))), st)

(* ---- processes -------------------------------------------------------------- *)
Import == IsOp("import") /\ Step(Returned(Ev, {}), [st EXCEPT !.loaded = TRUE])
UseJax == IsOp("jax") /\ Step(Returned(Ev, {}), st)
X64 == IsOp("x64") /\ Step(Returned(Ev, F("double precision is on", st.loaded => Ev.out.x64)), st)
Call ==
    /\ IsOp("call")
    /\ Step(Returned(Ev,
              F("double precision results", Double(Ev.out.r))
              \cup F("the value of any other import order", SameResult(Ev.out.r, st.mem[Ev.in.key], Eps))), st)
Get ==
    /\ IsOp("get")
    /\ Step(Returned(Ev,
              F("constants are in double precision", \A i \in 1..Len(Ev.out.r) : Ev.out.r[i].dt # "float32")
              \cup F("the value of any other import order",
                     Known(Ev.in.key) => SameResult(Ev.out.r, st.mem[Ev.in.key], Eps))), st)

Near ==
    /\ IsOp("near")
    /\ Step(Returned(Ev, F("small steps of the arguments are resolved", OnParabola(Ev.out.r, N("1e-9")))), st)

TraceNext == Begin \/ Reference \/ SetBuf \/ StartCall \/ Finish \/ Fails \/ Recall \/ Scribble \/ Consts
             \/ Variant \/ Batch \/ Batch2 \/ Import \/ UseJax \/ X64 \/ Call \/ Get \/ Near
TraceSpec == TraceStart(Empty) /\ [][TraceNext]_traceVars
=============================================================================
