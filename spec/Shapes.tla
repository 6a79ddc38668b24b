-------------------------------- MODULE Shapes --------------------------------
(* The built-in pulses (property C07) as exact sampled profiles.             *)
(* Time is counted in samples, m = index - N/2.                              *)
(*  sech      A = 1/cosh(m x), cosh x = ca/cb rational: 1/A = T_|m|(ca/cb)   *)
(*            (Chebyshev recurrence), width T0 = dT / acosh(ca/cb)           *)
(*  gaussian  A^2 = 2^(-4 m^2 / s^2)  for a FWHM of s samples                *)
(*  sinc      A = sin(pi m/q)/(pi m/q): Im z^(mM/2q) * q/(pi m)              *)
(*  cw        one spectral bin, N/2 + off, on a grid centred off bins below  *)
(* A profile value is [k |-> kind, ...] and carries the phase exponent of    *)
(* the temporal chirp (z = exp(2 pi i/M)); the spectral chirp is a list of   *)
(* exponents over the frequency bins, applied before the temporal one.       *)
EXTENDS Ring, Json
CONSTANTS NS, BIG, DEPTH     \* BIG: sizes at which the Chebyshev numbers would overflow; not for sech
VARIABLES hist
Pick(S) == {RandomElement(S)}
Samples(n) == [k \in 1..n |-> k - 1 - n \div 2]
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Cheb(_, _, _)
Cheb(k, a, b) == IF k = 0 THEN 1 ELSE IF k = 1 THEN a ELSE 2*a*Cheb(k-1,a,b) - b*b*Cheb(k-2,a,b)  \* T_k(a/b) * b^k
RECURSIVE Pow(_, _)
Pow(b, k) == IF k = 0 THEN 1 ELSE b * Pow(b, k-1)
Sech(n, a, b) == [k \in 1..n |-> LET m == Abs(Samples(n)[k]) IN <<Pow(b, m), Cheb(m, a, b)>>]
GaussLog(n, s) == [k \in 1..n |-> LET m == Samples(n)[k] IN <<-4*m*m, s*s>>]      \* log2 of A^2
Sinc(n, q) == [k \in 1..n |-> LET m == Samples(n)[k] IN
     IF m = 0 THEN [num |-> [i \in 1..H |-> IF i = 1 THEN 1 ELSE 0], den |-> 1, u |-> 0]
     ELSE LET r == RAdd(Zeta(m * (M \div (2*q))), RScale(-1, Zeta(-m * (M \div (2*q)))))     \* 2i sin
          IN [num |-> [i \in 1..H |-> r[i-1]], den |-> m, u |-> 1]]       \* value = num/(2i) * q/(pi den)
PhT(n, g, h) == [k \in 1..n |-> LET m == Samples(n)[k] IN (-(g*m*m + h*m*m*m)) % M]
PhW(n, g, h) == [k \in 1..n |-> LET m == Samples(n)[k] IN (g*m*m + h*m*m*m) % M]
Widths == {<<5,4>>, <<9,8>>, <<3,2>>, <<2,1>>, <<3,1>>}
Shape(kind, n) ==
  CASE kind = "sech"  -> {[kind |-> kind, w |-> w, prof |-> Sech(n, w[1], w[2])] : w \in Pick(Widths)}
    [] kind = "gauss" -> {[kind |-> kind, w |-> <<s,1>>, prof |-> GaussLog(n, s)] : s \in Pick(1..12)}
    [] kind = "sinc"  -> {[kind |-> kind, w |-> <<q,1>>, prof |-> Sinc(n, q)] : q \in Pick({x \in 1..M : M % (2*x) = 0})}
ShapeCW(n, how) == {[kind |-> "cw", w |-> <<off, how>>, bin |-> n \div 2 + off] :
                             off \in IF how = 1 THEN Pick((-(n \div 2))..(n \div 2 - 1))
                                    ELSE IF how = 2 THEN Pick({-n - 1, -(n \div 2) - 1, n \div 2, n \div 2 + 2, n + 1}) ELSE {0}}   \* 2: refused
Init == hist = <<>>
Next == /\ Len(hist) < DEPTH
        /\ \E kind \in Pick({"sech","gauss","sinc","cw"}) : \E n \in (IF kind = "sech" THEN Pick(NS) ELSE Pick(Pick(NS) \cup Pick(BIG))), avg \in Pick({0,1}), how \in Pick(0..2),
              gw \in Pick({0,-2,1,3}), hw \in Pick({0,1,-1}), gt \in Pick({0,2,-1}), ht \in Pick({0,1,-1}) :
           \E s \in IF kind = "cw" THEN ShapeCW(n, how) ELSE Shape(kind, n) :
             hist' = Append(hist, [n |-> n, avg |-> avg, s |-> s, cw |-> <<gw, hw>>, ct |-> <<gt, ht>>,
                                   phW |-> PhW(n, gw, hw), phT |-> PhT(n, gt, ht)])
Spec == Init /\ [][Next]_hist
Emit == (Len(hist) = DEPTH) => PrintT(ToJson([m |-> M, h |-> hist]))
(* the profiles are what they claim to be *)
Even == \A i \in DOMAIN hist : LET e == hist[i] IN
   e.s.kind \in {"sech","gauss"} => \A k \in 2..e.n : e.s.prof[k] = e.s.prof[e.n + 2 - k]
SechIdentity == \A i \in DOMAIN hist : LET e == hist[i] IN e.s.kind = "sech" =>
   \A m \in 1..(e.n \div 2 - 1) :     \* 1/A satisfies the addition formula of cosh: T_{2m} = 2 T_m^2 - 1
       4*m <= e.n => LET p == e.s.prof c == e.n \div 2 + 1 IN
          p[c+2*m-IF 4*m = e.n THEN e.n ELSE 0][2] = 2*p[c+m][2]*p[c+m][2] - p[c+m][1]*p[c+m][1]
HalfPower == \A i \in DOMAIN hist : LET e == hist[i] IN e.s.kind = "gauss" =>
   \A k \in 1..e.n : 2*Abs(Samples(e.n)[k]) = e.s.w[1] => e.s.prof[k][1] = -e.s.prof[k][2]     \* A^2 = 1/2 at half the FWHM
=============================================================================
