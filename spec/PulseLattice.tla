---------------------------- MODULE PulseLattice ----------------------------
(* A pool of pulses on the lattice of exactly representable grids and fields *)
(* (properties C01..C06, C20, C24).                                          *)
(*                                                                           *)
(* A slot holds the four numbers that determine every grid - size n, window  *)
(* t (in units of tau), centre frequency c (in units of 1/(L tau)), rep rate *)
(* fr (index, 0: unset) - and the frequency-domain field f.  Everything a user can     *)
(* read is an operator of that state (the views below), so "all views always *)
(* agree" is: the implementation's reads equal these operators after every   *)
(* history.  One action per public mutating call; a refused call (ok=FALSE)  *)
(* is an action that leaves the pool unchanged.                              *)
EXTENDS Ring, Json, Randomization
CONSTANTS P,        \* number of slots
          NS,       \* grid sizes used by setters
          TS,       \* windows (units of tau), divisors of L
          CS,       \* centre frequencies, units 1/(L tau)
          OPS,      \* enabled operations
          DEPTH,    \* length of a history
          VIEWS,    \* which costly views to include: subset of {"AT","epp"}
          SIM       \* TRUE: random arguments (simulation), FALSE: all arguments
L == 240
NMAX == CHOOSE x \in NS \cup {16} : \A y \in NS \cup {16} : y <= x
Big == NMAX > 16        \* large grids: no transform, so the size need not divide M
Slots == 1..P
NoF == [v |-> <<>>, d |-> 0, o |-> 1]
Blank == [st |-> "none", n |-> 0, t |-> 1, c |-> 0, fr |-> 0, f |-> NoF]
VARIABLES pool,   \* slot -> pulse
          disk,   \* exported dictionary or written file: a pulse snapshot or Blank
          hist
vars == <<pool, disk, hist>>

Pick(S) == IF SIM /\ S # {} THEN {RandomElement(S)} ELSE S
Once(x, F(_)) == CHOOSE r \in {F(y) : y \in {x}} : TRUE     \* evaluate x exactly once
Args(S, T) == Pick(IF SIM THEN S ELSE T)     \* all of S at random, or every element of the smaller T
Fld(vv, dd, oo) == Once(Reduce(TLCEval(vv), dd), LAMBDA r : [v |-> r.v, d |-> r.d, o |-> oo])
HasF(s) == DOMAIN s.f.v # {}
FSize(s) == Cardinality(DOMAIN s.f.v)
Valid(s) == s.st = "ok" /\ HasF(s) /\ FSize(s) = s.n
Bin(s) == L \div s.t                    \* spacing of the frequency grid
(* ------------------------------ views ------------------------------------ *)
WView(s) == [k \in 1..s.n |-> s.c + (k - 1 - s.n \div 2) * Bin(s)]   \* 1/(L tau)
VView(s) == [k \in 1..s.n |-> (k - 1 - s.n \div 2) * Bin(s)]         \* 1/(L tau)
TView(s) == [k \in 1..s.n |-> (2*(k-1) - s.n) * s.t]                 \* tau/(2 n)
AWView(s) == [k \in 1..s.n |-> [i \in 1..H |-> s.f.v[k-1][i-1]]]
TField(s) == XForm(s.f.v, s.n, -1)
ATView(s, a) == [k \in 1..s.n |-> [i \in 1..H |-> a[k-1][i-1]]]
Epp2of(s, a) == LET                    \* twice the trapezoid sum of |AT|^2
               p == [j \in 0..(s.n-1) |-> RScale(IF j = 0 \/ j = s.n-1 THEN 1 ELSE 2, RNorm2(a[j]))]
               e == RSumR(p, 0, s.n-1)
           IN [i \in 1..H |-> e[i-1]]
MaxAbs(vv) ==  LET S == {LET x == vv[k][i] IN IF x < 0 THEN -x ELSE x : k \in DOMAIN vv, i \in RIdx}
              IN CHOOSE m \in S : \A x \in S : x <= m
Small(f) == MaxAbs(f.v) <= 200 /\ f.d <= 8 /\ f.o <= 64
View(s) == IF s.st # "ok" THEN [st |-> s.st]
           ELSE IF ~Valid(s) THEN [st |-> "grid", n |-> s.n, t |-> s.t, c |-> s.c, fr |-> s.fr,
                                   W |-> WView(s), V |-> VView(s), T |-> TView(s)]
           ELSE [st |-> "field", n |-> s.n, t |-> s.t, c |-> s.c, fr |-> s.fr,
                 W |-> WView(s), V |-> VView(s), T |-> TView(s),
                 AW |-> AWView(s), d |-> s.f.d, o |-> s.f.o]
                 @@ (IF VIEWS = {} THEN <<>> ELSE
                       Once(TField(s), LAMBDA a : (IF "AT" \in VIEWS THEN [AT |-> ATView(s, a)] ELSE <<>>)
                                              @@ (IF "epp" \in VIEWS THEN [epp |-> Epp2of(s, a)] ELSE <<>>)))

(* --------------------------- field patterns ------------------------------ *)
Pat(n, id) == TLCEval(
  CASE id = 1 -> [k \in 0..(n-1) |-> IF k = n \div 2 THEN RInt(1) ELSE RZero]
    [] id = 2 -> [k \in 0..(n-1) |-> RScale(k+1, Zeta(3*k))]
    [] id = 3 -> [k \in 0..(n-1) |-> IF k = 0 \/ k = n-1 THEN RZero ELSE RScale(1 + (k % 3), Zeta(k*k))]
    [] id = 4 -> [k \in 0..(n-1) |-> IF k = 1 THEN RScale(2, Zeta(1)) ELSE IF k = n-1 THEN RInt(1) ELSE RZero]
    [] id = 5 -> LET r == TLCEval([k \in 0..(n-1) |-> <<RandomElement(0..3), RandomElement(0..(M-1))>>])
                 IN [k \in 0..(n-1) |-> RScale(r[k][1], Zeta(r[k][2]))]
    [] id = 6 -> LET r == TLCEval([k \in 0..(n-1) |-> <<RandomElement(1..3), RandomElement(0..(M-1))>>])
                 IN [k \in 0..(n-1) |-> IF k = 0 \/ k = n-1 THEN RZero ELSE RScale(r[k][1], Zeta(r[k][2]))]
    [] id = 7 -> LET b == RandomElement(1..(n-1))          \* one bin far above the others
                     r == TLCEval([k \in 0..(n-1) |-> RandomElement(0..(M-1))])
                 IN [k \in 0..(n-1) |-> IF k = 0 THEN RZero ELSE RScale(IF k = b THEN 150 ELSE 1, Zeta(r[k]))])
PatIds == IF SIM THEN 1..7 ELSE 1..4
EdgeZero(f) == LET n == Cardinality(DOMAIN f.v) IN
   (\A i \in RIdx : f.v[0][i] = 0) /\ (\A i \in RIdx : f.v[n-1][i] = 0)

(* --------------------- pure functions of one slot ------------------------ *)
SetAW(s, v, d) == [s EXCEPT !.f = Fld(v, d, 1)]
FromTime(n, v, d, o) == Fld(XForm(v, n, 1), d + Log2(n \div OddPart(n)), o * OddPart(n))
PhaseW(s, e) == [s EXCEPT !.f.v = TLCEval([k \in 0..(s.n-1) |-> RRot(s.f.v[k], e[k])])]   \* e: exponents of z
Mm(s, k) == k - s.n \div 2
Cube(x) == x*x*x
(* about a frequency r/y bins from the centre; the coefficients are for 1/y of a bin *)
ChirpW(s, g, h, q, r, y) == PhaseW(s, [k \in 0..(s.n-1) |->
     LET m == y*Mm(s,k) - r IN g*m*m + h*Cube(m) + q*m*m*m*m])
ChirpT(s, g, h) == Once(TField(s), LAMBDA a :
     [s EXCEPT !.f = FromTime(s.n, [j \in 0..(s.n-1) |-> LET m == Mm(s,j) IN RRot(a[j], -(g*m*m + h*Cube(m)))],
                              s.f.d, s.f.o)])
OffsetOK(s, x) == (x * s.c * s.t) % L = 0
Offset(s, x) == PhaseW(s, [k \in 0..(s.n-1) |-> -((x * s.c * s.t) \div L) - x * Mm(s,k)])
Expand(s, lg, loc) ==
  LET n2 == s.n * 2^lg
      new == n2 - s.n
      lead == IF loc = "before" THEN new ELSE IF loc = "after" THEN 0 ELSE new \div 2
  IN Once(TField(s), LAMBDA a : [s EXCEPT !.n = n2, !.t = s.t * 2^lg,
        !.f = FromTime(n2, [j \in 0..(n2-1) |-> IF j >= lead /\ j < lead + s.n THEN a[j-lead] ELSE RZero], s.f.d, s.f.o)])
Rotate(s, r) == [s EXCEPT !.f.v = TLCEval([k \in 0..(s.n-1) |-> s.f.v[(k - r) % s.n]])]
(* interpolation to a centre u + w/4 bins away *)
Interp(s, u, w) ==
  LET At(k) == IF k \in 0..(s.n-1) THEN s.f.v[k] ELSE RZero
      In(k) == 4*(k+u) + w >= 0 /\ 4*(k+u) + w <= 4*(s.n-1)
  IN [s EXCEPT !.c = s.c + u*Bin(s) + (w*Bin(s)) \div 4,
        !.f = Fld([k \in 0..(s.n-1) |-> IF In(k) THEN RAdd(RScale(4-w, At(k+u)), RScale(w, At(k+u+1))) ELSE RZero],
                  s.f.d + 2, s.f.o)]
Subset(s, kc, m) ==
  [s EXCEPT !.n = m, !.c = s.c + (kc - s.n \div 2) * Bin(s),
     !.f = Fld([k \in 0..(m-1) |-> s.f.v[kc - m \div 2 + k]], s.f.d, s.f.o)]
Filter(s, lo, hi) == [s EXCEPT !.f = Fld([k \in 0..(s.n-1) |-> IF k >= lo /\ k <= hi THEN s.f.v[k] ELSE RZero], s.f.d, s.f.o)]
ScaleF(s, q) == [s EXCEPT !.f = Fld(s.f.v, s.f.d - q, s.f.o)]       \* times 2^q
ConjF(s) == [s EXCEPT !.f.v = TLCEval([k \in 0..(s.n-1) |-> RConj(s.f.v[k])])]

(* ------------------------------ actions ---------------------------------- *)
Log(op, p, a0, ok, np0, nd) == \E np \in {np0}, a \in {a0} :
  /\ Len(hist) < DEPTH
  /\ \A s \in Slots : (np[s].st = "ok" /\ HasF(np[s])) => Small(np[s].f)
  /\ pool' = np /\ disk' = nd
  /\ hist' = Append(hist, [op |-> op, p |-> p, a |-> a, ok |-> ok,
                            post |-> [s \in Slots |-> IF np[s] = pool[s] THEN [st |-> "same"] ELSE View(np[s])]])
Do(op, p, a, ns) == Log(op, p, a, TRUE, [pool EXCEPT ![p] = ns], disk)
Refuse(op, p, a) == Log(op, p, a, FALSE, pool, disk)
Keep(op, p, a) == Log(op, p, a, TRUE, pool, disk)
Live == {p \in Slots : pool[p].st = "ok"}
Fields == {p \in Slots : Valid(pool[p])}
NonZero(s) == ~IsZeroV(s.f.v)

New == \E p \in Pick({x \in Slots : pool[x].st = "none"}) :
   \E n \in Pick(NS), t \in Pick(TS), c \in Pick(CS), fr \in Args(0..3, {1}), how \in Args(0..5, {0}) :
     Do("new", p, <<n,t,c,fr,how>>, [Blank EXCEPT !.st = "ok", !.n = n, !.t = t, !.c = c, !.fr = fr])
ReadBlank == \E p \in Pick({x \in Slots : pool[x].st = "none"}) : Refuse("readblank", p, <<>>)
Drop == \E p \in Pick(Live) : Do("drop", p, <<>>, Blank)
SetN == \E p \in Pick(Live), n \in Pick(NS) : Do("setN", p, <<n>>, [pool[p] EXCEPT !.n = n])
SetT == \E p \in Pick(Live), t \in Pick(TS), how \in Args(0..3, {0}) :
     Do("setT", p, <<t,how>>, [pool[p] EXCEPT !.t = t])
SetC == \E p \in Pick(Live), c \in Pick(CS), how \in Args(0..1, {0}) :
     Do("setC", p, <<c,how>>, [pool[p] EXCEPT !.c = c])
SetFr == \E p \in Pick(Live), fr \in Args(0..3, {0,2}) : Do("setFr", p, <<fr>>, [pool[p] EXCEPT !.fr = fr])
Mutate == \E p \in Pick(Live) : Keep("mutate", p, <<>>)     \* scribble into every array that can be read
PutAW == \E p \in Pick(Live), id \in Pick(PatIds) :
     /\ ~HasF(pool[p]) \/ FSize(pool[p]) = pool[p].n
     /\ \E v \in {Pat(pool[p].n, id)} : LET ns == SetAW(pool[p], v, 0) IN
        Do("putAW", p, [k \in 1..pool[p].n |-> [i \in 1..H |-> v[k-1][i-1]]], ns)
PutAT == \E p \in Pick(Live), id \in Pick(PatIds) :
     /\ ~HasF(pool[p]) \/ FSize(pool[p]) = pool[p].n
     /\ \E v \in {Pat(pool[p].n, id)} : LET
            ns == [pool[p] EXCEPT !.f = FromTime(pool[p].n, v, 0, 1)] IN
        Do("putAT", p, [k \in 1..pool[p].n |-> [i \in 1..H |-> v[k-1][i-1]]], ns)
ScaleAT == \E p \in Pick(Fields), q \in Pick({-1,1}) : Do("scaleAT", p, <<q>>, ScaleF(pool[p], q))
DoChirpW == \E p \in Pick(Fields), g \in Args(-3..3, {-1,2}), h \in Args(-2..2, {0,1}), q \in Args(-1..1, {0,1}), r \in Args(-3..3, {0,2}), w \in Pick({0,1}), y \in Args({1,2,10}, {1}) :
     /\ w = 0 => (r = 0 /\ y = 1)
     /\ y = 10 => q = 0
     /\ Do("chirpW", p, <<g,h,q,r,w,y>>, ChirpW(pool[p], g, h, q, r, y))
DoChirpT == \E p \in Pick(Fields), g \in Args(-3..3, {-1,2}), h \in Args(-2..2, {0,1}) : Do("chirpT", p, <<g,h>>, ChirpT(pool[p], g, h))
DoPhase == \E p \in Pick(Fields), e \in Pick(IF SIM THEN {TLCEval([k \in 0..(NMAX-1) |-> RandomElement(0..(M-1))])}
                                     ELSE {[k \in 0..(NMAX-1) |-> (k*k + 2*k) % M]}) :
     LET s == pool[p] ee == [k \in 0..(s.n-1) |-> e[k]] IN
     Do("phaseW", p, [k \in 1..s.n |-> e[k-1]], PhaseW(s, ee))
DoOffset == \E p \in Pick(Fields), x \in Args((-2*M)..(2*M), {-2,1,4}) : OffsetOK(pool[p], x) /\ Do("offset", p, <<x>>, Offset(pool[p], x))
DoExpand == \E p \in Pick(Fields), lg \in Pick({1,2}), loc \in Pick({"before","after","even"}) :
     /\ pool[p].n * 2^lg <= NMAX /\ M % (pool[p].n * 2^lg) = 0 /\ L % (pool[p].t * 2^lg) = 0
     /\ Do("expand", p, <<lg, loc>>, Expand(pool[p], lg, loc))
BadExpand == \E p \in Pick(Fields), lg \in Pick({1,2}) : Refuse("badexpand", p, <<lg>>)
DoRotate == \E p \in Pick(Fields), r \in Args(-4..4, {-1,2}) :
     pool[p].c + r*Bin(pool[p]) > 0 /\ Do("rotate", p, <<r>>, Rotate(pool[p], r))
DoFilter == \E p \in Pick(Fields), lo \in Args(-1..NMAX, {0,1}), hi \in Args(-1..NMAX, {1,NMAX}) : lo <= hi + 1 /\ Do("filter", p, <<lo,hi>>, Filter(pool[p], lo, hi))
DoSubset == \E p \in Pick(Fields) : \E q \in Pick(Slots), m \in Pick({2,4,6,8,10,12} \cup (IF Big THEN {pool[p].n \div 2, pool[p].n - 2} ELSE {})), kc \in Pick(1..(NMAX-1)) :
     /\ q # p /\ m < pool[p].n /\ (Big \/ M % m = 0)
     /\ kc - m \div 2 >= 0 /\ kc + m \div 2 <= pool[p].n
     /\ Do("subset", q, <<p, kc, m>>, Subset(pool[p], kc, m))
(* a subset larger than the pulse, or reaching beyond either end of its grid  *)
BadSubset == \/ \E p \in Pick(Fields), x \in Pick({0,2,4}) : Refuse("badsubset", p, <<pool[p].n + x, pool[p].n \div 2>>)
             \/ \E p \in Pick(Fields), m \in Pick({2,4,6,8,10,12}), kc \in Pick(0..(NMAX-1)) :
                /\ m < pool[p].n /\ kc < pool[p].n /\ (kc - m \div 2 < 0 \/ kc + m \div 2 > pool[p].n)
                /\ Refuse("badsubset", p, <<m, kc>>)
DoInterp == \E p \in Pick(Fields), q \in Pick(Slots), u \in Args(-3..3, {-1,1}), w \in Args({0,1,2,3}, {0,1}) :
     /\ q # p /\ Bin(pool[p]) % 4 = 0 /\ (w = 0 => EdgeZero(pool[p].f))
     /\ pool[p].c + (u - pool[p].n) * Bin(pool[p]) > 0
     /\ Do("interp", q, <<p, u, w>>, Interp(pool[p], u, w))
Clone == \E p \in Pick(Live), q \in Pick(Fields) : p # q /\ Do("clone", p, <<q>>, pool[q])
CreateClone == \E p \in Pick(Slots), q \in Pick(Fields) : p # q /\ Do("create", p, <<q>>, pool[q])
Export == \E q \in Pick(Fields) : Log("export", q, <<>>, TRUE, pool, pool[q])
Import == \E p \in Pick(Live) : disk.st = "ok" /\ Do("import", p, <<>>, disk)
(* a written file read onto a grid of m bins whose centre lies u bins away    *)
Window(s, u, m) == [s EXCEPT !.n = m, !.c = s.c + u*Bin(s),
     !.f = Fld([k \in 0..(m-1) |-> LET i == k - m \div 2 + u + s.n \div 2 IN IF i \in 0..(s.n-1) THEN s.f.v[i] ELSE RZero], s.f.d, s.f.o)]
Frog == \E p \in Pick(Slots), q \in Pick(Fields), fw \in Pick({TRUE,FALSE}), fr \in Pick({TRUE,FALSE}),
           u \in Args(-3..3, {0,1}), m \in Pick(NS), same \in Args({TRUE,FALSE}, {TRUE}) :
     /\ p # q /\ EdgeZero(pool[q].f) /\ NonZero(pool[q]) /\ pool[q].fr # 0
     /\ \E ns \in {IF same THEN pool[q] ELSE Window(pool[q], u, m)} :
        /\ NonZero(ns) /\ 2*ns.c > ns.n*Bin(ns)
        /\ Do("frog", p, <<q, fw, fr>>, IF fw = fr THEN ns ELSE ConjF(ns))
(* a written file read onto a grid with r bins per bin of the file, centred u bins away: which bin of the file *)
(* (0-based) each bin is, -10-x at x/r of the way along its bins, -2 outside the file, -3 at its very ends     *)
FrogBin(n, m, r, u, k) == LET x == k - m \div 2 + r*(u + n \div 2) IN
     IF x = 0 \/ x = r*(n-1) THEN -3 ELSE IF x < 0 \/ x > r*(n-1) THEN -2 ELSE IF x % r = 0 THEN x \div r ELSE -10 - x
FrogFine == \E p \in Pick(Live), fw \in Pick({TRUE,FALSE}), fr \in Pick({TRUE,FALSE}), u \in Args(-3..3, {0,1}), m \in Pick({6,8,16,24,40}), r \in Pick(1..4), e \in Args(1..(M-1), {1}) :
     LET s == pool[p] IN \E b \in {[k \in 1..m |-> FrogBin(s.n, m, r, u, k-1)]} :
        /\ 2*(s.c + u*Bin(s))*r > m*Bin(s) /\ \E k \in 1..m : b[k] >= 0
        /\ Keep("frogfine", p, <<fw, fr, u, m, r, e, b>>)
SetEpp == \E p \in Pick(Fields), q \in Pick({-1,1,2}) : NonZero(pool[p]) /\ Do("setepp", p, <<q>>, ScaleF(pool[p], q))

(* ---- diagnostics (C24): calls that return something and change nothing ---- *)
Tup(x) == [i \in 1..H |-> x[i-1]]
(* intensity-weighted mean bin: numerator and denominator *)
AvgNum(s) == RSumR(TLCEval([k \in 0..(s.n-1) |-> RScale(Mm(s,k), RNorm2(s.f.v[k]))]), 0, s.n-1)
AvgDen(s) == RSumR(TLCEval([k \in 0..(s.n-1) |-> RNorm2(s.f.v[k])]), 0, s.n-1)
DoAvg == \E p \in Pick(Fields) : NonZero(pool[p]) /\
   Keep("avg", p, [num |-> Tup(AvgNum(pool[p])), den |-> Tup(AvgDen(pool[p]))])
(* sum over i of P[i] P[i + lag], lag = j - n/2, no wrap-around *)
AutoC(s) == Once(TField(s), LAMBDA a : Once(TLCEval([j \in 0..(s.n-1) |-> RNorm2(a[j])]), LAMBDA pw :
   [j \in 1..s.n |-> LET lag == j - 1 - s.n \div 2 IN
       Tup(RSumR(TLCEval([i \in 0..(s.n-1) |-> IF i + lag \in 0..(s.n-1) THEN RMul(pw[i], pw[i+lag]) ELSE RZero]), 0, s.n-1))]))
DoAutoC == \E p \in Pick(Fields) : pool[p].n <= 8 /\ MaxAbs(TField(pool[p])) <= 12 /\ Keep("autoc", p, AutoC(pool[p]))
(* rows k = 0..n/2-1 are frequencies k/window, columns delays; gate 2^-(j-m)^2 times 2^((n-1)^2) *)
RECURSIVE P2(_)
P2(k) == IF k = 0 THEN 1 ELSE 2 * P2(k-1)
SpecRow(s, a, gate(_,_), k, m) == RSumR(TLCEval([j \in 0..(s.n-1) |->
     RRot(gate(j, m), (M \div s.n) * (((s.c * s.t) \div L) * Mm(s, j) - k*j))]), 0, s.n-1)
Delays(s, steps) == [i \in 1..steps |-> (i-1) * ((s.n-1) \div (steps-1))]
XFrog(s, steps) == Once(TField(s), LAMBDA a :
   [k \in 1..(s.n \div 2) |-> [i \in 1..steps |->
      Tup(SpecRow(s, a, LAMBDA j, m : RScale(P2((s.n-1)*(s.n-1) - (j-m)*(j-m)), a[j]), k-1, Delays(s, steps)[i]))]])
SFrog(s, steps) == Once(TField(s), LAMBDA a :
   [k \in 1..(s.n \div 2) |-> [i \in 1..steps |->
      Tup(SpecRow(s, a, LAMBDA j, m : LET x == j - m + s.n \div 2 IN IF x \in 0..(s.n-1) THEN RMul(a[j], a[x]) ELSE RZero,
                  k-1, Delays(s, steps)[i]))]])
SpecOK(p, nmax) == OffsetOK(pool[p], 1) /\ pool[p].n <= nmax
StepsOf(n) == {x \in {2,4,6,8} : (n - 1) % (x - 1) = 0}
DoXFrog == \E p \in Pick({x \in Fields : pool[x].n <= 6}) : \E steps \in Pick(StepsOf(pool[p].n)) :
   /\ SpecOK(p, 6) /\ MaxAbs(TField(pool[p])) <= IF pool[p].n = 4 THEN 100 ELSE 8
   /\ Keep("xfrog", p, [steps |-> steps, s |-> XFrog(pool[p], steps)])
DoSFrog == \E p \in Pick({x \in Fields : SpecOK(x, 8) /\ EdgeZero([v |-> TField(pool[x])])}) : \E steps \in Pick(StepsOf(pool[p].n)) :
   /\ Keep("sfrog", p, [steps |-> steps, s |-> SFrog(pool[p], steps)])

Act(o) ==
  CASE o = "avg" -> DoAvg [] o = "autoc" -> DoAutoC [] o = "xfrog" -> DoXFrog [] o = "sfrog" -> DoSFrog [] o = "new" -> New [] o = "readblank" -> ReadBlank [] o = "drop" -> Drop
    [] o = "setN" -> SetN [] o = "setT" -> SetT [] o = "setC" -> SetC [] o = "setFr" -> SetFr
    [] o = "mutate" -> Mutate [] o = "putAW" -> PutAW [] o = "putAT" -> PutAT [] o = "scaleAT" -> ScaleAT
    [] o = "chirpW" -> DoChirpW [] o = "chirpT" -> DoChirpT [] o = "phaseW" -> DoPhase [] o = "offset" -> DoOffset
    [] o = "expand" -> DoExpand [] o = "badexpand" -> BadExpand [] o = "rotate" -> DoRotate
    [] o = "filter" -> DoFilter [] o = "subset" -> DoSubset [] o = "badsubset" -> BadSubset [] o = "interp" -> DoInterp
    [] o = "clone" -> Clone [] o = "create" -> CreateClone [] o = "export" -> Export [] o = "import" -> Import
    [] o = "frog" -> Frog [] o = "frogfine" -> FrogFine [] o = "setepp" -> SetEpp
(* histories start by giving slot 1 a grid and a field, so that short ones get somewhere *)
First == \E n \in Pick(NS), t \in Pick(TS), c \in Pick(CS), id \in Pick(PatIds) :
   LET s0 == [Blank EXCEPT !.st = "ok", !.n = n, !.t = t, !.c = c, !.fr = 1] IN
   \E v \in {Pat(n, id)} : Do("init", 1, <<n, t, c, 1>>, SetAW(s0, v, 0))
Init == pool = [p \in Slots |-> Blank] /\ disk = Blank /\ hist = <<>>
Next == IF hist = <<>> THEN First
        ELSE \/ \E o \in Pick(OPS) : Act(o)
             \/ SIM /\ Len(hist) < DEPTH /\ UNCHANGED vars    \* the picked call was not applicable: pick again
Spec == Init /\ [][Next]_vars
Emit == (Len(hist) = DEPTH) => PrintT(ToJson([m |-> M, L |-> L, h |-> hist]))

(* ---------------- properties of the specification itself ----------------- *)
(* (checked exhaustively with small constants, M a power of two)             *)
RoundTrip == \A p \in Fields : FromTime(pool[p].n, TField(pool[p]), pool[p].f.d, pool[p].f.o) = pool[p].f
Parseval == \A p \in Fields :
   LET s == pool[p] a == TField(s) IN
   RSumR([j \in 0..(s.n-1) |-> RNorm2(a[j])], 0, s.n-1) = RScale(s.n, RSumR([k \in 0..(s.n-1) |-> RNorm2(s.f.v[k])], 0, s.n-1))
Centred == \A p \in Live : WView(pool[p])[pool[p].n \div 2 + 1] = pool[p].c /\ TView(pool[p])[pool[p].n \div 2 + 1] = 0
LastOp == hist'[Len(hist')]
RefusedIsNoOp == [][LastOp.ok = FALSE => pool' = pool]_vars
OnlyTarget == [][\A q \in Slots : q # LastOp.p => pool'[q] = pool[q]]_vars
PhaseKeepsMagnitude == [][LastOp.op \in {"chirpW","phaseW","offset"} =>
   LET p == LastOp.p IN \A k \in 0..(pool[p].n-1) : RNorm2(pool'[p].f.v[k]) = RNorm2(pool[p].f.v[k])]_vars
WholeSampleShift == [][(LastOp.op = "offset" /\ LastOp.a[1] % (M \div pool[LastOp.p].n) = 0) =>
   LET p == LastOp.p  q == LastOp.a[1] \div (M \div pool[p].n)  a == TField(pool[p])  b == TField(pool'[p]) IN
   \A j \in 0..(pool[p].n-1) : RNorm2(b[j]) = RNorm2(a[(j + q) % pool[p].n])]_vars
ExpandKeepsSpacing == [][LastOp.op = "expand" =>
   LET p == LastOp.p IN pool'[p].t * pool[p].n = pool[p].t * pool'[p].n]_vars
ChirpInverse == [][LastOp.op = "chirpW" => LET a == LastOp.a p == LastOp.p IN
   ChirpW(pool'[p], -a[1], -a[2], -a[3], a[4], a[6]).f = pool[p].f]_vars
ExportIsSnapshot == [][LastOp.op # "export" => disk' = disk]_vars
=============================================================================
