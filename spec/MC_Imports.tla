----------------------------- MODULE MC_Imports -----------------------------
(* A package of modules that import one another.  Some modules switch double
   precision on while they load; some compute constants while they load.  The
   precision of a constant is that of the moment.  Whatever is asked for
   first, the package is loaded first; after any import, double precision is
   on and every constant was computed in double precision. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxAsk
Modules == {"pkg", "data", "cosmo", "phot", "sed", "dust", "burst", "mzr"}
\* what a module imports, in order, before its own statements
Deps == [pkg |-> <<"data", "phot", "sed">>, data |-> << >>, cosmo |-> << >>, phot |-> <<"cosmo">>,
         sed |-> <<"cosmo">>, dust |-> << >>, burst |-> << >>, mzr |-> << >>]
Switches == {"sed", "cosmo", "dust"}
Computes == {"cosmo", "mzr"}                    \* constants, after the switch of the module itself
VARIABLES env, loaded, x64, const, asked, used
vars == <<env, loaded, x64, const, asked, used>>
S0 == [loaded |-> {}, x64 |-> env = "1", const |-> << >>]
RECURSIVE Load(_, _), LoadAll(_, _)
LoadAll(ms, s) == IF ms = << >> THEN s ELSE LoadAll(Tail(ms), Load(ms[1], s))
Load(m, s) ==
    IF m \in s.loaded THEN s
    ELSE LET a == LoadAll(Deps[m], [s EXCEPT !.loaded = @ \cup {m}])
             b == [a EXCEPT !.x64 = @ \/ m \in Switches]
         IN [b EXCEPT !.const = IF m \in Computes THEN (m :> b.x64) @@ @ ELSE @]
\* importing pkg.m loads pkg first
Ask(m) == Load(m, Load("pkg", [loaded |-> loaded, x64 |-> x64, const |-> const]))
Init == env \in {"", "0", "1"} /\ loaded = {} /\ x64 = (env = "1") /\ const = << >> /\ asked = << >> /\ used = FALSE
\* the user may have computed something in single precision before
UseJax == ~used /\ asked = << >> /\ used' = TRUE /\ UNCHANGED <<env, loaded, x64, const, asked>>
Import(m) == /\ Len(asked) < MaxAsk /\ ~\E i \in 1..Len(asked) : asked[i] = m
             /\ LET s == Ask(m) IN loaded' = s.loaded /\ x64' = s.x64 /\ const' = s.const
             /\ asked' = Append(asked, m) /\ UNCHANGED <<env, used>>
Next == UseJax \/ \E m \in Modules : Import(m)
Spec == Init /\ [][Next]_vars
DoubleAfterAnyImport == asked # << >> => x64
ConstantsDouble == \A m \in DOMAIN const : const[m]
NeverSwitchedOff == [][x64 => x64']_vars
EmitCases == asked = << >> \/ PrintT("CASE " \o ToJson([env |-> env, used |-> used, asked |-> asked]))
=============================================================================
