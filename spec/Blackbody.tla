----------------------------- MODULE Blackbody -----------------------------
(* Planck's law per unit solid angle and area, in solar luminosities.       *)
EXTENDS Vec
HPlanck == N("6.62607015e-34")
KBoltz  == N("1.380649e-23")
CLight  == N("299792458")
WattsPerLsun == N("3.828e26")
AngstromPerMeter == N("1e10")

HNuOverKT(nu, temp) == (HPlanck ** nu) // (KBoltz ** temp)
\* exp(x) - 1: at 45 digits the series is only needed for very small x
Expm1(x) == IF NLt(x, N("1e-10"))
            THEN x ** (One ++ ((x // Two) ** (One ++ ((x // N("3")) ** (One ++ (x // N("4")))))))
            ELSE NExp(x) -- One
\* 1 / (e^x - 1), zero once e^x leaves every float
Occupation(x) == IF NGt(x, N("2000")) THEN Zero ELSE One // Expm1(x)
\* Lsun / Hz
BNu(nu, temp) ==
    (((Two ** HPlanck) ** ((nu ** nu) ** nu)) // (CLight ** CLight))
        ** (Occupation(HNuOverKT(nu, temp)) // WattsPerLsun)
\* Lsun / Angstrom, wavelength in Angstrom
BLam(aa, temp) ==
    LET w == aa // AngstromPerMeter
        w5 == ((w ** w) ** (w ** w)) ** w
    IN (((Two ** HPlanck) ** (CLight ** CLight)) // w5)
        ** (Occupation(HNuOverKT(CLight // w, temp)) // (WattsPerLsun ** AngstromPerMeter))
NuOfWave(aa) == CLight // (aa // AngstromPerMeter)
=============================================================================
