------------------------------ MODULE Dispersion ------------------------------
(* Group velocity, delay, dispersion parameter, mixing bandwidth (C25).       *)
(* A crystal's index is, per axis, a polynomial in the wavelength with exact  *)
(* integer coefficients that may depend on a parameter (angle, temperature);  *)
(* everything else is defined by it: with n the index and ' the wavelength    *)
(* derivative                                                                 *)
(*   group index           G = n - l n'          (group velocity c/G)         *)
(*   delay of l1 after l2  L (G(l1) - G(l2))/c                                *)
(*   dispersion parameter  D = -(l/c) n''  = (1/c) G'                         *)
(*   mixing bandwidth      0.886 pi / max(|G(s)-G(p)|, |G(i)-G(p)|)           *)
(* The model answers queries in exact integers; the identities below are      *)
(* checked on every crystal reached.                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS DEPTH, SIM, NX, NV, KINDS, COEF, LAMS, BANDS
VARIABLES xs, hist
vars == <<xs, hist>>
Pick(S) == IF SIM THEN {RandomElement(S)} ELSE S
Axes(k) == IF k = "flat" THEN {"none"} ELSE {"none", "mix", "o", "e"}
Norm(k, a) == IF k = "flat" THEN "o" ELSE IF a = "none" THEN "mix" ELSE a
(* polynomials <<c0, c1, c2, c3>> *)
Deg == 1..4
RECURSIVE Ev(_, _, _)
Ev(p, l, k) == IF k > Len(p) THEN 0 ELSE p[k] + l*Ev(p, l, k + 1)
Eval(p, l) == Ev(p, l, 1)
Diff(p) == [k \in 1..4 |-> IF k < 4 THEN k*p[k+1] ELSE 0]
TimesL(p) == [k \in 1..5 |-> IF k = 1 THEN 0 ELSE p[k-1]]
Neg(p) == [k \in DOMAIN p |-> -p[k]]
Pad(p) == [k \in 1..5 |-> IF k <= Len(p) THEN p[k] ELSE 0]
Add(p, q) == LET P == Pad(p) Q == Pad(q) IN [k \in 1..5 |-> P[k] + Q[k]]
GroupP(n) == Add(n, Neg(TimesL(Diff(n))))        \* n - l n'
DispP(n) == Neg(TimesL(Diff(Diff(n))))           \* -l n''
(* the index of crystal x along axis a now *)
NP(x, a) == LET b == Norm(x.kind, a) IN
  IF b = "o" /\ x.kind = "flat" THEN [k \in 1..4 |-> x.o[k] + x.v*x.d[k]]
  ELSE IF b = "o" THEN x.o ELSE IF b = "e" THEN x.e
  ELSE [k \in 1..4 |-> x.o[k] + x.v*(x.e[k] - x.o[k])]
G(x, a, l) == Eval(GroupP(NP(x, a)), l)
D(x, a, l) == Eval(DispP(NP(x, a)), l)
Delay(x, a, l1, l2) == x.len*(G(x, a, l1) - G(x, a, l2))
Abs(i) == IF i < 0 THEN -i ELSE i
Max(i, j) == IF i > j THEN i ELSE j
Spread(x, a, b) == Max(Abs(G(x, a, b.s) - G(x, a, b.p)), Abs(G(x, a, b.i) - G(x, a, b.p)))
Log(r) == hist' = Append(hist, r)
(* the level of these must not be constant, or TLC would draw them only once *)
Poly(h) == {<<a, b, c, d>> : a \in Pick(IF h = <<>> /\ ~SIM THEN {0} ELSE {0} \cup COEF), b \in Pick(COEF), c \in Pick(COEF), d \in Pick(COEF)}
Kin(p, s) == IF SIM THEN s ELSE {[p EXCEPT ![2] = -@], [p EXCEPT ![4] = 3*@]}
New == /\ Len(xs) < NX
  /\ \E k \in Pick(KINDS), v \in Pick(1..NV), len \in Pick(1..3) : \E o \in Poly(hist) : \E e \in Kin(o, Poly(hist)) : \E d \in Kin(o, Poly(hist)) :
     LET x == [kind |-> k, v |-> v, len |-> len, o |-> o, e |-> e, d |-> d] IN
     xs' = Append(xs, x) /\ Log([op |-> "new", x |-> x])
Param == \E i \in Pick(1..Len(xs)), v \in Pick(1..NV) :
     xs' = [xs EXCEPT ![i].v = v] /\ Log([op |-> "param", i |-> i, v |-> v])
Cache == \E i \in Pick(1..Len(xs)), on \in Pick(BOOLEAN) : Log([op |-> "caching", i |-> i, on |-> on]) /\ UNCHANGED xs
Many == IF SIM THEN {[k \in 1..RandomElement(1..(4 + 0*Len(hist))) |-> RandomElement(LAMS)]} ELSE {<<l>> : l \in LAMS}
Velocity == \E i \in Pick(1..Len(xs)) : \E a \in Pick(Axes(xs[i].kind)) : \E ls \in Many :
     Log([op |-> "vg", i |-> i, a |-> a, l |-> ls, v |-> [k \in DOMAIN ls |-> G(xs[i], a, ls[k])], p |-> xs[i].v]) /\ UNCHANGED xs
Disp == \E i \in Pick(1..Len(xs)) : \E a \in Pick(Axes(xs[i].kind)) : \E ls \in Many :
     Log([op |-> "D", i |-> i, a |-> a, l |-> ls, v |-> [k \in DOMAIN ls |-> D(xs[i], a, ls[k])], p |-> xs[i].v]) /\ UNCHANGED xs
(* q: the length is given explicitly (in units of the crystal's, perhaps 0), -1: left out *)
Lag == \E i \in Pick(1..Len(xs)) : \E a \in Pick(Axes(xs[i].kind)), l1 \in Pick(LAMS), l2 \in Pick(LAMS), q \in Pick(-1..3) :
     LET u == Delay(xs[i], a, l1, l2) IN
     Log([op |-> "delay", i |-> i, a |-> a, l |-> <<l1, l2>>, q |-> q, v |-> IF q < 0 THEN u ELSE q*u, p |-> xs[i].v]) /\ UNCHANGED xs
Band == \E i \in Pick(1..Len(xs)) : \E a \in Pick(Axes(xs[i].kind)), b \in Pick(BANDS) :
     Log([op |-> "bw", i |-> i, a |-> a, b |-> b, v |-> Spread(xs[i], a, b), p |-> xs[i].v]) /\ UNCHANGED xs
(* the period of some signal is asked for, then turned back into a signal     *)
Invert == \E i \in Pick(1..Len(xs)), w \in Pick(1..99) :
     Log([op |-> "invert", i |-> i, w |-> w, p |-> xs[i].v]) /\ UNCHANGED xs
(* the same question again, after whatever happened in between, possibly of another crystal of its kind *)
Asked == {k \in 1..Len(hist) : hist[k].op \in {"vg", "D", "delay", "bw", "invert"}}
Answer(r, x) == CASE r.op = "vg" -> [r EXCEPT !.v = [k \in DOMAIN r.l |-> G(x, r.a, r.l[k])], !.p = x.v]
                  [] r.op = "D" -> [r EXCEPT !.v = [k \in DOMAIN r.l |-> D(x, r.a, r.l[k])], !.p = x.v]
                  [] r.op = "delay" -> [r EXCEPT !.v = (IF r.q < 0 THEN 1 ELSE r.q)*Delay(x, r.a, r.l[1], r.l[2]), !.p = x.v]
                  [] r.op = "bw" -> [r EXCEPT !.v = Spread(x, r.a, r.b), !.p = x.v]
                  [] r.op = "invert" -> [r EXCEPT !.p = x.v]
Again == /\ SIM /\ Asked # {}
         /\ \E k \in Pick(Asked) : \E j \in Pick({i \in 1..Len(xs) : xs[i].kind = xs[hist[k].i].kind}), same \in Pick(1..3) :
              \E i \in {IF same = 1 THEN j ELSE hist[k].i} : \E v \in Pick(1..NV), turn \in Pick(BOOLEAN) :
              \E x \in {IF turn THEN [xs[i] EXCEPT !.v = v] ELSE xs[i]} :
                /\ xs' = [xs EXCEPT ![i] = x]
                /\ hist' = (IF turn THEN Append(hist, [op |-> "param", i |-> i, v |-> v]) ELSE hist) \o <<Answer([hist[k] EXCEPT !.i = i], x)>>
Init == xs = <<>> /\ hist = <<>>
Next == Len(hist) < DEPTH /\ (New \/ (xs # <<>> /\ (Param \/ Cache \/ Velocity \/ Disp \/ Lag \/ Band \/ Invert \/ Again)))
Spec == Init /\ [][Next]_vars
-------------------------------------------------------------------------------
Ps == {NP(xs[i], a) : i \in 1..Len(xs), a \in {"none", "o", "e"}}
(* the dispersion parameter is the derivative of the inverse group velocity   *)
Derivative == \A n \in Ps : \A k \in 1..4 : (IF k < 5 THEN k*Pad(GroupP(n))[k+1] ELSE 0) = Pad(DispP(n))[k]
(* no dispersion at a constant index, no delay at a wavelength-proportional one *)
NoDelay == \A i \in 1..Len(xs) : \A l1, l2 \in LAMS :
   LET d == Delay(xs[i], "none", l1, l2) IN d = -Delay(xs[i], "none", l2, l1)
     /\ (\A l3 \in LAMS : d + Delay(xs[i], "none", l2, l3) = Delay(xs[i], "none", l1, l3))
Photons == \A b \in BANDS : b.p*(b.s + b.i) = b.s*b.i
Swapped == \A i \in 1..Len(xs) : \A b \in BANDS : Spread(xs[i], "none", b) = Spread(xs[i], "none", [b EXCEPT !.s = b.i, !.i = b.s])
Emit == Len(hist) >= DEPTH => PrintT(ToJson([h |-> hist]))
View == <<xs, Len(hist)>>
=============================================================================
