-------------------------------- MODULE Dust --------------------------------
(***************************************************************************)
(* Attenuation of starlight by dust.  Wavelengths w are in micron, k is    *)
(* the reddening curve, A = av k / 4.05 the attenuation in magnitudes.     *)
(***************************************************************************)
EXTENDS Kernels

RV == N("4.05")
Calzetti(w) ==
    LET y == One // w IN
    RV ++ (N("2.659") **
      (IF NLt(w, N("0.63"))
       THEN (N("-2.156") ++ (N("1.509") ** y)) ++
            (((N("0.011") ** y) -- N("0.198")) ** (y ** y))
       ELSE N("-1.857") ++ (N("1.040") ** y)))
Leitherer(w) ==
    LET y == One // w IN
    (N("5.472") ++ (N("0.671") ** y)) ++
        (((N("2.620e-3") ** y) -- N("9.218e-3")) ** (y ** y))
\* Leitherer up to and including wavelength xc
Joined(w, xc) == IF NGt(w, xc) THEN Calzetti(w) ELSE Leitherer(w)
PowerLaw(w, slope, v) == NPow(w // v, slope)
Drude(w, w0, dw, ampl) ==
    LET a == (w ** dw) ** (w ** dw)
        b == ((w ** w) -- (w0 ** w0)) ** ((w ** w) -- (w0 ** w0))
    IN ampl ** (a // (b ++ a))
NonNeg(x) == NMax(x, Zero)
VBand == N("0.55")
\* p = <<bump amplitude, slope, bump centre, bump width>>
Noll(w, p) == NonNeg((Joined(w, N("0.15")) ++ Drude(w, p[3], p[4], p[1]))
                     ** PowerLaw(w, p[2], VBand))
Salim(w, p) == NonNeg((Joined(w, N("0.15")) ** PowerLaw(w, p[2], VBand))
                      ++ Drude(w, p[3], p[4], p[1]))
\* p = <<xtp, ytp, x0, h, lo, hi>>
TriweightCurve(w, p) == NPow10(TwSigSlope(NLog10(w), p[1], p[2], p[3], p[4], p[5], p[6]))
BumpDefault == NDeep(<<"0.2175", "0.0350">>)
TwDefault   == NDeep(<<"-1", "1.15", "0.5", "0.5", "-0.65", "-1.95">>)
BumpOfSlope(d) == (N("-1.9") ** d) ++ N("0.85")

Reddening(law, w, p) ==
    CASE law = "calzetti"  -> Calzetti(w)
      [] law = "leitherer" -> Leitherer(w)
      [] law = "joined"    -> Joined(w, N("0.15"))
      [] law = "noll"      -> Noll(w, p)
      [] law = "salim"     -> Salim(w, p)
      [] law = "triweight" -> TriweightCurve(w, p)

Attenuation(k, av) == NonNeg((av ** k) // RV)
Transmission(k, av, floor) ==
    floor ++ ((One -- floor) ** NPow10(N("-0.4") ** Attenuation(k, av)))
=============================================================================
