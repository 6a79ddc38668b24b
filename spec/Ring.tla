-------------------------------- MODULE Ring --------------------------------
(* Exact arithmetic for discretely sampled complex fields.                   *)
(*                                                                           *)
(* An element is a polynomial in z of degree < H, H = M/2, with z^H = -1 and *)
(* integer coefficients: z stands for exp(2 pi i / M).  Phases that are      *)
(* multiples of 2 pi / M are therefore exact rotations, and the discrete     *)
(* Fourier transform of size N (N divides M) is exact.                       *)
(* A field is a record [v |-> [0..N-1 -> element], d |-> e] = v / 2^e,       *)
(* kept in lowest terms.                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT M
H == M \div 2
RIdx == 0..(H-1)
RZero == TLCEval([i \in RIdx |-> 0])
RInt(a) == TLCEval([i \in RIdx |-> IF i = 0 THEN a ELSE 0])
Coef(a, i) == LET s == i % M IN IF s < H THEN a[s] ELSE -a[s-H]
RRot(a, e) == TLCEval([i \in RIdx |-> Coef(a, i - e)])
Zeta(e) == RRot(RInt(1), e)
RAdd(a, b) == TLCEval([i \in RIdx |-> a[i] + b[i]])
RScale(k, a) == TLCEval([i \in RIdx |-> k * a[i]])
RConj(a) == TLCEval([i \in RIdx |-> Coef(a, -i)])
RMul(a, b) == TLCEval([i \in RIdx |->
   LET S[l \in 0..H] == IF l = 0 THEN 0 ELSE S[l-1] + b[l-1] * Coef(a, i - (l-1))
   IN S[H]])
RNorm2(a) == RMul(a, RConj(a))

RECURSIVE RSumR(_, _, _)
RSumR(f, lo, hi) == IF hi < lo THEN RZero ELSE RAdd(RSumR(f, lo, hi-1), f[hi])

(* ---- fields ---- *)
Size(f) == Cardinality(DOMAIN f.v)
EvenAll(v) == \A k \in DOMAIN v : \A i \in RIdx : v[k][i] % 2 = 0
IsZeroV(v) == \A k \in DOMAIN v : \A i \in RIdx : v[k][i] = 0
RECURSIVE Reduce(_, _)
Reduce(v, d) ==
  IF IsZeroV(v) THEN [v |-> v, d |-> 0]
  ELSE IF d > -8 /\ EvenAll(v)
       THEN Reduce(TLCEval([k \in DOMAIN v |-> TLCEval([i \in RIdx |-> v[k][i] \div 2])]), d-1)
       ELSE [v |-> v, d |-> d]
IsZero(f) == IsZeroV(f.v)

(* AT[j] = Sum_k AW[k] exp(-2 pi i (k-N/2)(j-N/2)/N): the time field of the  *)
(* frequency field, zero delay at index N/2 (TimeOf); FreqOf is its inverse. *)
XForm(v, n, s) ==
  LET c == n \div 2
      q == M \div n
  IN TLCEval([j \in 0..(n-1) |-> TLCEval([i \in RIdx |->
        LET S[k \in 0..n] == IF k = 0 THEN 0
               ELSE S[k-1] + Coef(v[k-1], i - s*q*(k-1-c)*(j-c))
        IN S[n]])])
RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)
RECURSIVE OddPart(_)
OddPart(n) == IF n % 2 = 0 THEN OddPart(n \div 2) ELSE n
(* time fields carry an extra odd denominator o when N is not a power of 2   *)
TimeOf(f) == [v |-> XForm(f.v, Size(f), -1), d |-> f.d]
FreqOfRaw(f) == [v |-> XForm(f.v, Size(f), 1), d |-> f.d + Log2(Size(f) \div OddPart(Size(f)))]
=============================================================================
