------------------------------ MODULE MC_Calls ------------------------------
(* Threads call functions on shared argument buffers that their owner
   overwrites between calls, and may overwrite what earlier calls returned; a compiled program is kept per function and
   shape.  Every call must see the values its buffer had when it started and
   return what a first, lone call would. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Fns, Objs, Vals, Threads, MaxHist
VARIABLES buf, cache, th, res, hist
vars == <<buf, cache, th, res, hist>>
Idle == [pc |-> "idle", f |-> "", o |-> "", snap |-> 0]
Init == /\ buf = [o \in Objs |-> 1]
        /\ cache = {}
        /\ th = [t \in Threads |-> Idle]
        /\ res = << >>
        /\ hist = << >>
Note(h) == Len(hist) < MaxHist /\ hist' = Append(hist, h)
Quiet(o) == \A t \in Threads : th[t].pc = "idle" \/ th[t].o # o
Set(o, v) == /\ Quiet(o) /\ buf[o] # v /\ buf' = [buf EXCEPT ![o] = v]
             /\ Note([op |-> "set", o |-> o, v |-> v]) /\ UNCHANGED <<cache, th, res>>
Start(t, f, o) == /\ th[t].pc = "idle"
                  /\ th' = [th EXCEPT ![t] = [pc |-> "look", f |-> f, o |-> o, snap |-> buf[o]]]
                  /\ Note([op |-> "start", t |-> t, f |-> f, o |-> o]) /\ UNCHANGED <<buf, cache, res>>
\* programs are kept by function and shape (an object's shape never changes)
Look(t) == /\ th[t].pc = "look"
           /\ th' = [th EXCEPT ![t].pc = IF <<th[t].f, th[t].o>> \in cache THEN "run" ELSE "compile"]
           /\ UNCHANGED <<buf, cache, res, hist>>
Compile(t) == /\ th[t].pc = "compile" /\ cache' = cache \cup {<<th[t].f, th[t].o>>}
              /\ th' = [th EXCEPT ![t].pc = "run"] /\ UNCHANGED <<buf, res, hist>>
\* the program is run on the buffer itself
Run(t) == /\ th[t].pc = "run"
          /\ res' = Append(res, [f |-> th[t].f, o |-> th[t].o, asked |-> th[t].snap, own |-> FALSE,
                                 val |-> <<th[t].f, th[t].o, buf[th[t].o]>>])
          /\ th' = [th EXCEPT ![t].pc = "done"] /\ UNCHANGED <<buf, cache, hist>>
Finish(t) == /\ th[t].pc = "done" /\ th' = [th EXCEPT ![t] = Idle]
             /\ Note([op |-> "finish", t |-> t]) /\ UNCHANGED <<buf, cache, res>>
Fail(f, o) == Note([op |-> "fail", f |-> f, o |-> o]) /\ UNCHANGED <<buf, cache, th, res>>
Recall(k) == Note([op |-> "recall", k |-> k]) /\ UNCHANGED <<buf, cache, th, res>>
\* a result belongs to whoever asked for it, who may work on it in place
Scribble(k) == /\ res' = [res EXCEPT ![k] = [@ EXCEPT !.own = TRUE, !.val = << >>]]
               /\ Note([op |-> "scribble", k |-> k]) /\ UNCHANGED <<buf, cache, th>>
Finished == Cardinality({i \in 1..Len(hist) : hist[i].op = "finish"})
Next == \/ \E o \in Objs, v \in Vals : Set(o, v)
        \/ \E t \in Threads, f \in Fns, o \in Objs : Start(t, f, o)
        \/ \E t \in Threads : Look(t) \/ Compile(t) \/ Run(t) \/ Finish(t)
        \/ \E f \in Fns, o \in Objs : Fail(f, o)
        \/ \E k \in 1..Finished : Recall(k) \/ Scribble(k)
Spec == Init /\ [][Next]_vars
Pure == \A i \in 1..Len(res) : res[i].own \/ res[i].val = <<res[i].f, res[i].o, res[i].asked>>
Kept == [][\A i \in 1..Len(res) : \/ res'[i] = res[i]
                                   \/ (hist'[Len(hist')].op = "scribble" /\ hist'[Len(hist')].k = i)]_res
OnlyTheOwnerWrites == [][buf' # buf => hist' # hist /\ hist'[Len(hist')].op = "set"]_vars
View == <<buf, cache, th, Len(hist)>>
EmitCases == ~(Len(hist) = MaxHist /\ \A t \in Threads : th[t].pc \in {"idle", "done"})
             \/ PrintT("CASE " \o ToJson([hist |-> hist]))
=============================================================================
