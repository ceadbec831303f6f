------------------------------ MODULE MC_Batch ------------------------------
(* A function of three arguments is mapped over batches: some arguments come
   stacked, the others are shared.  Mapping once or twice, in either order,
   every element is the single call. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Slots, Vers, MaxBatch
VARIABLES axes, vers, axes2, vers2, phase
vars == <<axes, vers, axes2, vers2, phase>>
Base == [s \in Slots |-> 0]
\* an argument is a version, or a batch (sequence) of versions
Args(ax, vs) == [s \in Slots |-> IF s \in ax THEN vs ELSE 0]
F(a) == a                                     \* any function: its arguments
Mix(ax, v) == [s \in Slots |-> IF s \in ax THEN v ELSE 0]
Mix2(ax, v, ax2, v2) == [s \in Slots |-> IF s \in ax2 THEN v2 ELSE IF s \in ax THEN v ELSE 0]
\* mapping: slice the batched arguments, call, stack
Sliced(a, ax, k) == [s \in Slots |-> IF s \in ax THEN a[s][k] ELSE a[s]]
Mapped(a, ax, n, G(_)) == [k \in 1..n |-> G(Sliced(a, ax, k))]
Seqs == UNION {[1..n -> Vers] : n \in 1..MaxBatch}
Init == axes = {} /\ vers = << >> /\ axes2 = {} /\ vers2 = << >> /\ phase = 0
One == phase = 0 /\ phase' = 1 /\ axes' \in SUBSET Slots \ {{}} /\ vers' \in Seqs /\ UNCHANGED <<axes2, vers2>>
Two == phase = 1 /\ phase' = 2 /\ axes2' \in SUBSET (Slots \ axes) \ {{}} /\ vers2' \in Seqs /\ UNCHANGED <<axes, vers>>
Next == One \/ Two
Spec == Init /\ [][Next]_vars
n1 == Len(vers)
n2 == Len(vers2)
Both == [s \in Slots |-> IF s \in axes2 THEN vers2 ELSE IF s \in axes THEN vers ELSE 0]
SingleLevel == phase = 1 => \A k \in 1..n1 : Mapped(Args(axes, vers), axes, n1, F)[k] = F(Mix(axes, vers[k]))
Outer(a) == Mapped(a, axes2, n2, F)
OuterR(a) == Mapped(a, axes, n1, F)
TwoLevels == phase = 2 =>
    \A k \in 1..n1 : \A j \in 1..n2 :
      /\ Mapped(Both, axes, n1, Outer)[k][j] = F(Mix2(axes, vers[k], axes2, vers2[j]))
      /\ Mapped(Both, axes2, n2, OuterR)[j][k] = F(Mix2(axes, vers[k], axes2, vers2[j]))
EmitCases == phase = 0 \/ PrintT("CASE " \o ToJson([axes |-> axes, vers |-> vers, axes2 |-> axes2, vers2 |-> vers2]))
=============================================================================
