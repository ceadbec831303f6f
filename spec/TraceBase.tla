----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* What every trace specification TR_* shares.                             *)
(*                                                                         *)
(* A trace is the sequence of events recorded while a driver called the    *)
(* real DSPS code; event e has e.op (the specification action it claims to *)
(* be), e.in (the arguments) and e.out (what the code returned: e.out.err  *)
(* is "" or the exception class; every returned array a is the record      *)
(* [v |-> nested sequence of numerals, sh |-> shape, dt |-> dtype]).       *)
(*                                                                         *)
(* A TR_* module has one action per op.  Each action takes the abstract    *)
(* state st to the state the specification prescribes and reports the      *)
(* clauses of the specification that the event breaks.  Reporting instead  *)
(* of blocking keeps the verdict total: every later event is still judged. *)
(***************************************************************************)
EXTENDS Vec, Json, IOUtils

Trace == TLCEval(JsonDeserialize(IOEnv.DSPS_TRACE))

VARIABLES l,     \* position in Trace
          st,    \* abstract state after the first l - 1 events
          bad    \* clauses broken by event l - 1
traceVars == <<l, st, bad>>

Ev == Trace[l]
IsOp(op) == l <= Len(Trace) /\ Ev.op = op

TraceStart(s0) == l = 1 /\ st = s0 /\ bad = {}

Step(fails, st2) ==
    /\ l' = l + 1
    /\ st' = st2
    /\ bad' = TLCEval(fails)
    /\ IF bad' = {} THEN TRUE ELSE
       PrintT("FAIL " \o ToJson([l |-> l, op |-> Ev.op, clauses |-> bad']))

\* the clause called name holds iff ok
F(name, ok) == IF ok THEN {} ELSE {name}

\* nothing is promised about this event, for the stated reason
Silent(why) == IF PrintT("SKIP " \o ToJson([l |-> l, op |-> Ev.op, why |-> why])) THEN {} ELSE {}

\* clauses that only make sense when the call returned: rest is not
\* evaluated for a call that raised
Returned(e, rest) == IF e.out.err # "" THEN {"returns (raised " \o e.out.err \o ")"}
                     ELSE rest
\* a must have shape sh before its entries are looked at
Shaped(name, a, sh, rest) == IF a.sh # sh THEN {name \o " has the right shape"} ELSE rest

\* numbers of argument / result
In(x)  == TLCEval(NDeep(x))
Out(a) == TLCEval(NDeep(a.v))

AllClose(x, y, rtol, atol) ==
    /\ Len(x) = Len(y)
    /\ \A i \in 1..Len(x) : Close(x[i], y[i], rtol, atol)
AllClose2(x, y, rtol, atol) ==
    /\ Len(x) = Len(y)
    /\ \A i \in 1..Len(x) : AllClose(x[i], y[i], rtol, atol)
AllFinite(x)  == \A i \in 1..Len(x) : NIsFin(x[i])
=============================================================================
