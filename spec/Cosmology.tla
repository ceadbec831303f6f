----------------------------- MODULE Cosmology -----------------------------
(***************************************************************************)
(* Flat universes with matter and dark energy of equation of state         *)
(* w(a) = w0 + wa (1 - a), no radiation.  c = <<Om0, w0, wa, h>>.          *)
(***************************************************************************)
EXTENDS Vec

CSpeed   == N("2.99792458e8")      \* m/s
MpcCm    == N("3.08567758149e24")
YearSec  == N("31556925.2")
RhoCrit0 == N("277.536627")        \* Msun h^2 / kpc^3
Pi       == N("3.14159265358979323846264338327950288419716939937510")

\* dark energy density in units of today's
DarkEnergy(zp1, c) ==
    NExp((N("3") ** ((One ++ (c[2] ++ c[3])) ** NLn(zp1)))
         -- (N("3") ** (c[3] ** (One -- (One // zp1)))))
E2(zp1, c) == (c[1] ** (zp1 ** (zp1 ** zp1))) ++ ((One -- c[1]) ** DarkEnergy(zp1, c))
E(zp1, c)  == NSqrt(E2(zp1, c))
OmegaM(zp1, c) == (c[1] ** (zp1 ** (zp1 ** zp1))) // E2(zp1, c)

\* Simpson's rule on n (even) intervals of [0, x]
Simpson(f(_), x, n) ==
    LET h == x // N(n)
        v == TLCEval([i \in 1..(n + 1) |->
               (IF i = 1 \/ i = n + 1 THEN One ELSE IF i % 2 = 0 THEN N("4") ELSE Two)
                 ** f(h ** N(i - 1))])
    IN (h // N("3")) ** VSum(v)

\* in y = ln(1 + z) both integrands are smooth
ComovingInt(z, c, n) ==
    Simpson(LAMBDA y : LET q == NExp(y) IN q // E(q, c), NLn(One ++ z), n)
LookbackInt(z, c, n) ==
    Simpson(LAMBDA y : One // E(NExp(y), c), NLn(One ++ z), n)
\* H0 x age at scale factor a1: int_0^a1 da / (a E), with a = s^2
AgeInt(a1, c, n) ==
    Simpson(LAMBDA s : IF NEq(s, Zero) THEN Zero
                       ELSE LET a == s ** s IN Two // (s ** E(One // a, c)), NSqrt(a1), n)

HubbleDist(c)   == (CSpeed ** N("1e-5")) // c[4]                    \* Mpc
HubbleTime(c)   == (N("1e-16") ** (MpcCm // YearSec)) // c[4]       \* Gyr
NStep == 64
Comoving(z, c)  == HubbleDist(c) ** ComovingInt(z, c, NStep)
Lookback(z, c)  == HubbleTime(c) ** LookbackInt(z, c, NStep)
AgeToday(c)     == HubbleTime(c) ** AgeInt(One, c, 2 * NStep)
AgeAt(z, c)     == HubbleTime(c) ** AgeInt(One // (One ++ z), c, 2 * NStep)
Modulus(dl)     == N("5") ** NLog10(dl ** N("1e5"))
CritDensity(z, c) == RhoCrit0 ** ((c[4] ** c[4]) ** E2(One ++ z, c))
VirialTime(z, c) ==
    LET x == OmegaM(One ++ z, c) -- One
        delta == ((N("18") ** (Pi ** Pi)) ++ (N("82") ** x)) -- (N("39") ** (x ** x))
    IN NSqrt(N("8")) ** ((HubbleTime(c) // E(One ++ z, c)) // NSqrt(delta))
VolumeElement(dc, z, c) == HubbleDist(c) ** ((dc ** dc) // E(One ++ z, c))
\* documented accuracy of the code's own quadratures
DistTol(z, c) ==
    LET q == One ++ z
        steep == IF NLt(z, Zero) THEN One // (q ** q) ELSE One         \* times to come
    IN N("1e-9") ++ (((N("1.5e-6") ** NMax(One, (c[2] ** c[2]) // N("4"))) ** (steep ** (One ++ (N("3") // q)))) ** (z ** z))
=============================================================================
