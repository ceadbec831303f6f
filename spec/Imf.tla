-------------------------------- MODULE Imf --------------------------------
(***************************************************************************)
(* A population of stars loses mass as it ages; part of what is lost stays *)
(* in remnants.  Ages are lg years.                                        *)
(***************************************************************************)
EXTENDS Kernels

Imfs == {"salpeter", "chabrier", "kroupa", "van_dokkum"}
\* <<a, b, lgk1, d, e, f, lgk2, h>>
SurvivingPars(imf) ==
    LET a == CASE imf = "salpeter" -> "0.13" [] imf = "chabrier" -> "0.225"
               [] imf = "kroupa" -> "0.211" [] imf = "van_dokkum" -> "0.238"
        d == CASE imf = "salpeter" -> "0.055" [] imf = "chabrier" -> "0.145"
               [] imf = "kroupa" -> "0.13" [] imf = "van_dokkum" -> "0.156"
    IN NDeep(<<a, "8", "-0.5", d, "0.08", "6.5", "0.7", "0.005">>)
\* <<a, b, lgk1, d, e>>
RemnantPars(imf) ==
    LET a == CASE imf = "salpeter" -> "-1.67" [] imf = "chabrier" -> "-1.42"
               [] imf = "kroupa" -> "-1.45" [] imf = "van_dokkum" -> "-1.4"
    IN NDeep(<<a, "7", "1", "1.3", "0.2">>)

ReturnedFraction(lga, p) ==
    LET z == SigSlope(lga, p[2], p[1], p[2], NPow10(p[3]), p[4], p[5])
    IN Sigmoid(lga, p[6], NPow10(p[7]), p[8], z)
Surviving(lga, p) == One -- ReturnedFraction(lga, p)
LgRemnant(lga, p) == SigSlope(lga, p[2], p[1], p[2], NPow10(p[3]), p[4], p[5])
Remnant(lga, p) == NPow10(LgRemnant(lga, p))
=============================================================================
