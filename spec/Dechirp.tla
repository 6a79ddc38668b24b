------------------------------- MODULE Dechirp -------------------------------
(* Removing delay and chirp (property C03).  A spectrum is a vector of       *)
(* integer magnitudes and a phase in units of 2 pi/M.  Removing the delay    *)
(* (chirp) subtracts the least-squares polynomial of degree 1 (2) fitted to  *)
(* the unwrapped phase of the bins whose intensity exceeds a threshold.      *)
(* Fitting is a projection, so the phase is always                           *)
(*     a[0] + Resid(1, a[1]) + Resid(2, a[2])                                *)
(* with a[d] the phase that has been through a fit of degree d, and fits of  *)
(* any order and number only move the accumulators.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS M, NS, DEPTH
VARIABLES n, mag, thr, a, hist
vars == <<n, mag, thr, a, hist>>
Pick(S) == IF S = {} THEN S ELSE {RandomElement(S)}
Idx == 1..n
X(k) == k - 1 - n \div 2
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
RECURSIVE SumS(_, _)
SumS(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumS(f, S \ {x})
(* bins used for the fit: mag^2 > thr * max^2 with thr = thr[1]/thr[2]       *)
Mask == {k \in Idx : mag[k]*mag[k]*thr[2] > thr[1] * Max({mag[j]*mag[j] : j \in Idx})}
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE GCD(_, _)
GCD(x, y) == IF y = 0 THEN Abs(x) ELSE GCD(y, x % Abs(y))
RECURSIVE Gs(_, _)
Gs(v, k) == IF k = 0 THEN 0 ELSE GCD(v[k], Gs(v, k-1))
Simp(v, d) == LET g == GCD(d, Gs(v, n)) IN IF g = 0 THEN [v |-> v, d |-> 1] ELSE [v |-> [k \in Idx |-> v[k] \div g], d |-> d \div g]
Mom(p) == SumS([k \in Idx |-> IF p = 0 THEN 1 ELSE IF p = 1 THEN X(k) ELSE IF p = 2 THEN X(k)*X(k)
                              ELSE IF p = 3 THEN X(k)*X(k)*X(k) ELSE X(k)*X(k)*X(k)*X(k)], Mask)
Cross(y, p) == SumS([k \in Idx |-> y[k] * (IF p = 0 THEN 1 ELSE IF p = 1 THEN X(k) ELSE X(k)*X(k))], Mask)
Det3(m) == m[1][1]*(m[2][2]*m[3][3] - m[2][3]*m[3][2]) - m[1][2]*(m[2][1]*m[3][3] - m[2][3]*m[3][1])
           + m[1][3]*(m[2][1]*m[3][2] - m[2][2]*m[3][1])
Resid(deg, y) ==
  IF deg = 0 \/ \A k \in Idx : y[k] = 0 THEN [v |-> y, d |-> 1]
  ELSE IF deg = 1 THEN
    LET s0 == Mom(0) s1 == Mom(1) s2 == Mom(2) D == s0*s2 - s1*s1
        c0 == Cross(y,0) c1 == Cross(y,1)
        A == c0*s2 - c1*s1  B == s0*c1 - s1*c0
    IN Simp([k \in Idx |-> y[k]*D - A - B*X(k)], D)
  ELSE
    LET r(i) == <<Mom(i), Mom(i+1), Mom(i+2)>>
        m == <<r(0), r(1), r(2)>>
        c == <<Cross(y,0), Cross(y,1), Cross(y,2)>>
        Col(j) == [i \in 1..3 |-> [l \in 1..3 |-> IF l = j THEN c[i] ELSE m[i][l]]]
        D == Det3(m) A == Det3(Col(1)) B == Det3(Col(2)) C == Det3(Col(3))
    IN Simp([k \in Idx |-> y[k]*D - A - B*X(k) - C*X(k)*X(k)], D)
Parts(acc) == [d \in 0..2 |-> Resid(d, acc[d])]
Floor(acc) == LET p == Parts(acc) IN [k \in Idx |-> p[0].v[k] + (p[1].v[k] \div p[1].d) + (p[2].v[k] \div p[2].d)]
(* the unwrapped phase is the phase: neighbouring bins differ by less than pi, bins without amplitude only at the ends *)
Smooth(acc) == LET f == Floor(acc) IN \A k \in 1..(n-1) : (mag[k] > 0 /\ mag[k+1] > 0) => Abs(f[k+1] - f[k]) <= M \div 2 - 4
Zero == [k \in Idx |-> 0]
Log(op, arg, acc) == /\ a' = acc /\ UNCHANGED <<n, mag, thr>>
   /\ hist' = Append(hist, [op |-> op, a |-> arg, ph |-> LET p == Parts(acc) IN [d \in 1..3 |-> p[d-1]]])
Poly(c0, c1, c2, c3) == [k \in Idx |-> c0 + c1*X(k) + c2*X(k)*X(k) + c3*X(k)*X(k)*X(k)]
Add == \E c0 \in Pick({0,3,11}), c1 \in Pick(-5..5), c2 \in Pick(-2..2), c3 \in Pick({0,0,1,-1}) :
   LET q == Poly(c0,c1,c2,c3) acc == [a EXCEPT ![0] = [k \in Idx |-> @[k] + q[k]]] IN
   Smooth(acc) /\ Log("phase", <<c0,c1,c2,c3>>, acc)
Delay == Cardinality(Mask) >= 3 /\ Smooth(a) /\ Log("delay", <<>>, [d \in 0..2 |-> IF d = 0 THEN Zero ELSE IF d = 1 THEN [k \in Idx |-> a[0][k] + a[1][k]] ELSE a[2]])
Chirp == Cardinality(Mask) >= 4 /\ Smooth(a) /\ Log("dechirp", <<>>, [d \in 0..2 |-> IF d = 2 THEN [k \in Idx |-> a[0][k] + a[1][k] + a[2][k]] ELSE Zero])
Init == n = 0 /\ mag = <<>> /\ thr = <<1,20>> /\ a = <<>> /\ hist = <<>>
First == \E nn \in Pick(NS), t \in Pick({<<1,20>>, <<1,20>>, <<1,4>>, <<1,2>>, <<1,100>>}), z \in Pick({0,0,1}), hi \in Pick({2,6}) :
   \E mm \in {TLCEval([k \in 1..nn |-> IF (k = 1 /\ z = 1) THEN 0 ELSE RandomElement(1..hi)])} :
     /\ n' = nn /\ mag' = mm /\ thr' = t /\ a' = [d \in 0..2 |-> [k \in 1..nn |-> 0]]
     /\ hist' = <<[op |-> "init", n |-> nn, mag |-> mm, thr |-> t]>>
Next == IF hist = <<>> THEN First ELSE
        /\ Len(hist) < DEPTH
        /\ \/ \E o \in Pick(1..4) : (o <= 2 /\ Add) \/ (o = 3 /\ Delay) \/ (o = 4 /\ Chirp)
           \/ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Emit == (Len(hist) = DEPTH) => PrintT(ToJson([m |-> M, h |-> hist]))
(* a fit leaves nothing of its own degree behind *)
Projected == hist # <<>> => \A d \in {1,2} : LET r == Resid(d, a[d]) IN
     Cross(r.v, 0) = 0 /\ Cross(r.v, 1) = 0 /\ (d = 2 => Cross(r.v, 2) = 0)
=============================================================================
