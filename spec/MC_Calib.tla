------------------------------ MODULE MC_Calib ------------------------------
(* A reader looks calibrations up in any order, and puts what it has found so
   far together: physical constants of different modules have to describe one
   world, defaults lie within their bounds, and the two forms of the
   mass-metallicity relation are calibrated alike. *)
EXTENDS Calib, FiniteSets, TLC, Json, Integers
CONSTANTS MaxRead
VARIABLES seen, reads
vars == <<seen, reads>>
Init == seen = {} /\ reads = << >>
Related == {i \in 1..Len(Shipped) : <<Shipped[i][1], Shipped[i][2]>> \in {
   <<W, "C_SPEED">>, <<"dsps.dust.blackbody", "C_SPEED">>, <<W, "MPC">>, <<W, "RHO_CRIT0_KPC3_UNITY_H">>,
   <<"dsps.constants", "L_SUN_CGS">>, <<"dsps.dust.blackbody", "WATTS_PER_LSUN">>, <<"dsps.photometry.photometry_kernels", "AB0">>,
   <<U, "DEFAULT_MZR_PARAMS">>, <<U, "MZR_PBOUNDS">>, <<M, "DEFAULT_MET_PARAMS">>}}
Read == \E i \in Related \ seen : Len(reads) < MaxRead /\ seen' = seen \cup {i} /\ reads' = Append(reads, i)
Next == Read
Spec == Init /\ [][Next]_vars
Has(m, n) == \E i \in seen : Shipped[i][1] = m /\ Shipped[i][2] = n
Pi == N("3.14159265358979323846")
OneWorld ==
   /\ (Has(W, "C_SPEED") /\ Has("dsps.dust.blackbody", "C_SPEED")) => NEq(Value(W, "C_SPEED"), Value("dsps.dust.blackbody", "C_SPEED"))
   /\ (Has("dsps.constants", "L_SUN_CGS") /\ Has("dsps.dust.blackbody", "WATTS_PER_LSUN")) =>
        NEq(Value("dsps.constants", "L_SUN_CGS"), Value("dsps.dust.blackbody", "WATTS_PER_LSUN") ** N("1e7"))
   \* 3631 Jy at 10 pc
   /\ (Has("dsps.photometry.photometry_kernels", "AB0") /\ Has(W, "MPC") /\ Has("dsps.constants", "L_SUN_CGS")) =>
        Close(Value("dsps.photometry.photometry_kernels", "AB0"),
              (N("3631e-23") ** ((N("4") ** Pi) ** ((Value(W, "MPC") // N("1e5")) ** (Value(W, "MPC") // N("1e5")))))
                // Value("dsps.constants", "L_SUN_CGS"), N("1e-5"), Zero)
   \* critical density of H0 = 100 km/s/Mpc
   /\ (Has(W, "RHO_CRIT0_KPC3_UNITY_H") /\ Has(W, "MPC")) =>
        LET hub == N("1e7") // Value(W, "MPC")
            kpc == Value(W, "MPC") // N("1e5") IN
        Close(Value(W, "RHO_CRIT0_KPC3_UNITY_H"),
              (((N("3") ** (hub ** hub)) // ((N("8") ** Pi) ** N("6.6743e-11"))) ** (kpc ** (kpc ** kpc))) // N("1.98841e30"),
              N("1e-4"), Zero)
Bounded ==
   (Has(U, "DEFAULT_MZR_PARAMS") /\ Has(U, "MZR_PBOUNDS")) =>
     LET p == NDeep(The(Shipped, U, "DEFAULT_MZR_PARAMS")[4]) b == NDeep(The(Shipped, U, "MZR_PBOUNDS")[4]) IN
     \A i \in 1..Len(p) : NLt(b[2 * i - 1], p[i]) /\ NLt(p[i], b[2 * i])
Alike ==
   (Has(U, "DEFAULT_MZR_PARAMS") /\ Has(M, "DEFAULT_MET_PARAMS")) =>
     LET p == The(Shipped, U, "DEFAULT_MZR_PARAMS")[4] q == The(Shipped, M, "DEFAULT_MET_PARAMS")[4] IN
     \A i \in 1..9 : NEq(N(p[i]), N(q[IF i <= 7 THEN i ELSE i + 1]))
OneRowEach == \A i, j \in 1..Len(Shipped) : (Shipped[i][1] = Shipped[j][1] /\ Shipped[i][2] = Shipped[j][2]) => i = j
Emit == ~(Len(reads) = MaxRead) \/ PrintT("CASE " \o ToJson([reads |-> [k \in 1..Len(reads) |-> <<Shipped[reads[k]][1], Shipped[reads[k]][2]>>]]))
=============================================================================
