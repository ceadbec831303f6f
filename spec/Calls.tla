------------------------------- MODULE Calls -------------------------------
(***************************************************************************)
(* Calls of a pure library.  A call is made of a function and the values   *)
(* its arguments have when it starts; its result is a function of the two. *)
(* What that function is, is the business of the other modules: here it is *)
(* the memory mem, from what is called to the result it has.               *)
(***************************************************************************)
EXTENDS Vec
\* a result is a sequence of arrays [v, sh, dt] of numerals
RECURSIVE Flat(_, _)
Flat(v, d) == IF d = 0 THEN <<v>> ELSE IF v = << >> THEN << >>
              ELSE Flat(v[1], d - 1) \o Flat(Tail(v), d)
Flatten(a) == TLCEval(Flat(a.v, Len(a.sh)))
Magnitude(nums) == IF Len(nums) = 0 THEN Zero ELSE MaxOf([i \in 1..Len(nums) |-> NAbs(nums[i])])
SameNumber(s, t, rtol, atol) == s = t \/ Close(N(s), N(t), rtol, atol)
\* entry by entry within rtol, or within rtol/100 of the largest finite entry
SameValues(x, y, rtol) ==
    /\ Len(x) = Len(y)
    /\ x = y \/
       LET fin == SelectSeq(y, LAMBDA s : NIsFin(N(s)))
           atol == (Magnitude([i \in 1..Len(fin) |-> N(fin[i])])) ** (rtol // N("100"))
       IN \A i \in 1..Len(x) : SameNumber(x[i], y[i], rtol, atol)
SameArray(a, b, rtol) == a.sh = b.sh /\ SameValues(Flatten(a), Flatten(b), rtol)
SameResult(r, q, rtol) == Len(r) = Len(q) /\ \A i \in 1..Len(r) : SameArray(r[i], q[i], rtol)
Double(r) == \A i \in 1..Len(r) : r[i].dt = "float64"
(* Four results q, of arguments a, a+h, a+2h, a+3h with h a millionth of a:   *)
(* a number a smooth function computes in double precision throughout is     *)
(* then, up to h^3, on a parabola; one that went through single precision    *)
(* moves by steps of a tenth of h, and is not.                               *)
Third(x) == NAbs((x[4] -- x[1]) -- ((x[3] -- x[2]) ** N("3")))
OnParabola(q, rtol) ==
    \A a \in 1..Len(q[1]) :
        LET f == TLCEval([k \in 1..4 |-> Flatten(q[k][a])])
            fin == SelectSeq(f[1], LAMBDA s : NIsFin(N(s)))
            atol == (Magnitude([i \in 1..Len(fin) |-> N(fin[i])])) ** (rtol // N("1000")) IN
        /\ \A k \in 2..4 : Len(f[k]) = Len(f[1])
        /\ \A i \in 1..Len(f[1]) :
            LET x == [k \in 1..4 |-> N(f[k][i])] IN
            (\A k \in 1..4 : NIsFin(x[k])) => NLe(Third(x), atol ++ ((NAbs(x[1])) ** rtol))
\* element k of a batched result
Element(r, k) == [i \in 1..Len(r) |-> [v |-> r[i].v[k], sh |-> Tail(r[i].sh), dt |-> r[i].dt]]
Batched(r, n) == \A i \in 1..Len(r) : Len(r[i].sh) > 0 /\ r[i].sh[1] = n
=============================================================================
