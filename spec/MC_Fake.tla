------------------------------ MODULE MC_Fake ------------------------------
(* Synthetic data sets are made one after the other; each set's lines get
   fresh distinct names, and no set depends on the ones before it.  Names are
   drawn at random, so the draw must go on until they are distinct. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Sizes, Alphabet, MaxSets
VARIABLES hist, names, n
vars == <<hist, names, n>>
Init == hist = << >> /\ names = {} /\ n = 0
Ask == n = Cardinality(names) /\ Len(hist) < MaxSets
       /\ \E m \in Sizes : n' = m /\ hist' = Append(hist, m) /\ names' = {}
Draw == Cardinality(names) < n /\ \E x \in Alphabet : names' = names \cup {x} /\ UNCHANGED <<hist, n>>
Next == Ask \/ Draw
Spec == Init /\ [][Next]_vars /\ WF_vars(Draw)
NeverTooMany == Cardinality(names) <= n
Done == Cardinality(names) = n
Complete == Done => Cardinality(names) = n
EmitCases == ~(Done /\ Len(hist) = MaxSets /\ names = {x \in Alphabet : x <= n}) \/ PrintT("CASE " \o ToJson([hist |-> hist]))
=============================================================================
