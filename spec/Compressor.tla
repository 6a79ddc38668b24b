------------------------------ MODULE Compressor ------------------------------
(* The Treacy grating pair to all orders (C21).  For a grating of period d    *)
(* and incidence angle g, a colour is s = lambda/d; the diffracted ray leaves *)
(* at alpha with u = sin(alpha) = s - sin(g) (coerced to [-1,1]) and          *)
(* C = cos(alpha).  Every quantity is a polynomial in s, u, 1/C, sin(g) and   *)
(* cos(g), written as a function from exponent tuples                         *)
(*     <<a, b, k, p, q>>  ~  s^a u^b C^-k sin(g)^p cos(g)^q                   *)
(* to integer coefficients.  With W = 2 pi c/d and omega = W/s,               *)
(* d/d(omega) = (1/W) D with D = -s^2 d/ds.                                   *)
(*   tau = (G/c)  (1 + cos(g - alpha))/C       group delay of one pass        *)
(*   dt/dw = (G/(c W)) D tau = -(G/(c W)) s^3/C^3                             *)
(*   phase of one pass = (G W/c) P,  D P = tau                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS DEPTH, SIM, PR, NMAX
VARIABLES gr, pu, hist
vars == <<gr, pu, hist>>
Pick(S) == IF SIM THEN {RandomElement(S)} ELSE S
At(f, e) == IF e \in DOMAIN f THEN f[e] ELSE 0
RECURSIVE Sum(_)
Sum(ts) == IF ts = <<>> THEN <<>> ELSE                    \* sequence of <<exponents, coefficient>> -> function
   CHOOSE r \in {LET e == Head(ts)[1] IN [x \in DOMAIN f \cup {e} |-> At(f, x) + (IF x = e THEN Head(ts)[2] ELSE 0)] : f \in {Sum(Tail(ts))}} : TRUE
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
RECURSIVE Seq0(_)
Seq0(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o Seq0(S \ {x})
D0(f) == LET es == Seq0({e \in DOMAIN f : f[e] # 0}) IN Sum(Flat([i \in 1..Len(es) |-> LET e == es[i] a == e[1] b == e[2] k == e[3] IN
    <<<< <<a + 1, b, k, e[4], e[5]>>, -a*f[e] >>, << <<a + 2, b - 1, k, e[4], e[5]>>, -b*f[e] >>, << <<a + 2, b + 1, k + 2, e[4], e[5]>>, -k*f[e] >> >>]))
D(f) == CHOOSE r \in {D0(x) : x \in {f}} : TRUE
RECURSIVE Dn(_, _)
Dn(f, n) == IF n = 0 THEN f ELSE D(Dn(f, n - 1))
Tau == Sum(<< << <<0, 0, 1, 0, 0>>, 1>>, << <<0, 0, 0, 0, 1>>, 1>>, << <<0, 1, 1, 1, 0>>, 1>> >>)
Slope == Sum(<< << <<3, 0, 3, 0, 0>>, -1>> >>)            \* D tau, Treacy's equation 5b
P == Sum(<< << <<-1, 0, 1, 0, 0>>, 1>>, << <<-1, 0, 0, 0, 1>>, 1>>, << <<-1, 1, 1, 1, 0>>, 1>>, << <<0, 1, 1, 0, 0>>, -1>> >>)
TauT == [n \in 0..NMAX |-> Dn(Tau, n)]
SlopeT == [n \in 0..NMAX |-> Dn(Slope, n)]
-------------------------------------------------------------------------------
(* Identities, over the field of PR elements (exact, no rounding)             *)
Mod(x) == x % PR
RECURSIVE Pw(_, _)
Pw(x, n) == IF n = 0 THEN 1 ELSE IF n % 2 = 1 THEN Mod(x*Pw(x, n - 1)) ELSE LET h == Pw(x, n \div 2) IN CHOOSE r \in {Mod(y*y) : y \in {h}} : TRUE
Invm(x) == Pw(x, PR - 2)
Pn(x, n) == IF n < 0 THEN Pw(Invm(x), -n) ELSE Pw(x, n)
RECURSIVE Ev(_, _, _)
Ev(f, es, v) == IF es = <<>> THEN 0 ELSE LET e == Head(es) IN
   Mod(Mod(Mod(f[e])*Mod(Mod(Pn(v.s, e[1])*Pn(v.u, e[2]))*Mod(Pn(v.c, -e[3])*Mod(Pn(v.sg, e[4])*Pn(v.cg, e[5]))))) + Ev(f, Tail(es), v))
Eval(f, v) == Ev(f, Seq0(DOMAIN f), v)
Cs(t) == LET i == Invm(Mod(1 + t*t)) IN [c |-> Mod((1 - t*t)*i), s |-> Mod(2*t*i)]
Pt(t, r) == LET x == Cs(t) y == Cs(r) IN [s |-> Mod(x.s + y.s), u |-> x.s, c |-> x.c, sg |-> y.s, cg |-> y.c]
Ts == 2..9
Good(v) == v.s # 0 /\ v.c # 0
Identities == \A t, r \in Ts : \A v \in {Pt(t, r)} : Good(v) =>
   /\ Mod(v.u*v.u + v.c*v.c) = 1
   /\ Eval(D(P), v) = Eval(Tau, v)                        \* the phase's slope is the group delay
   /\ Eval(D(Tau), v) = Eval(Slope, v)                    \* whose slope is Treacy's equation
   /\ \A n \in 0..(NMAX - 1) : Eval(TauT[n + 1], v) = Eval(SlopeT[n], v)
   /\ Eval(Dn(P, 2), v) = Eval(Slope, v)
-------------------------------------------------------------------------------
(* Histories: gratings (sin of the incidence as k/12), pulses, queries.       *)
Sins == (-9..11)
Log(x) == hist' = Append(hist, x)
(* Rulings are one or two lines per unit.                                     *)
NewG == Len(gr) < 3 /\ \E k \in Pick(Sins), m \in Pick({1, 2}) : gr' = Append(gr, [k |-> k, m |-> m]) /\ Log([op |-> "grating", sg |-> k, m |-> m]) /\ UNCHANGED pu
(* a colour is s in twelfths; u likewise; impossible ones are coerced         *)
Colour(g, s) == LET u == s - gr[g].k IN IF u > 12 THEN 12 ELSE IF u < -12 THEN -12 ELSE u
Colours == 1..30
Theta == \E g \in Pick(1..Len(gr)) : \E s \in Pick(Colours) :
         Log([op |-> "theta", g |-> g, s |-> s, u |-> Colour(g, s)]) /\ UNCHANGED <<gr, pu>>
Ok(g) == {s \in Colours : s - gr[g].k \in -10..10}
Show(f) == LET es == Seq0({e \in DOMAIN f : f[e] # 0}) IN [i \in 1..Len(es) |-> <<es[i], f[es[i]]>>]
Terms(what, n) == CASE what = "tau" -> Tau [] what = "slope" -> Slope [] what = "gdd" -> Slope [] what = "hod" -> SlopeT[n - 2] [] what = "dn" -> TauT[n]
Query == \E g \in Pick(1..Len(gr)) : Ok(g) # {} /\ \E s \in Pick(Ok(g)), what \in Pick({"tau", "slope", "gdd", "hod", "dn"}), k \in Pick(-2..3) :
         \E n \in Pick(IF what = "hod" THEN 3..(NMAX + 2) ELSE IF what = "dn" THEN 1..4 ELSE {0}) :
         Log([op |-> what, g |-> g, s |-> s, u |-> s - gr[g].k, n |-> n, sep |-> k, terms |-> Show(Terms(what, n))]) /\ UNCHANGED <<gr, pu>>
(* an earlier question again: of another grating, about another order or separation, or the same *)
Asked == {k \in 1..Len(hist) : hist[k].op \in {"tau", "slope", "gdd", "hod", "dn"}}
Again == SIM /\ Asked # {} /\ \E k \in Pick(Asked) : \E q \in {hist[k]} : \E how \in Pick({"grating", "sep", "order", "same"}), j \in Pick(1..Len(gr)), e \in Pick(-2..3) :
         \E n \in Pick(IF q.op = "hod" THEN 3..(NMAX + 2) ELSE IF q.op = "dn" THEN 1..4 ELSE {0}) :
         \E g \in {IF how = "grating" /\ q.s \in Ok(j) THEN j ELSE q.g}, m \in {IF how = "order" THEN n ELSE q.n} :
         Log([q EXCEPT !.g = g, !.u = q.s - gr[g].k, !.n = m, !.sep = IF how = "sep" THEN e ELSE @, !.terms = Show(Terms(q.op, m))]) /\ UNCHANGED <<gr, pu>>
BadOrder == \E g \in Pick(1..Len(gr)), n \in Pick({-1, 0, 1, 2}) : Log([op |-> "bad", g |-> g, n |-> n, hod |-> TRUE, dn |-> n < 1]) /\ UNCHANGED <<gr, pu>>
(* a pulse is a list of applied (grating, separation), reset by "new"         *)
NewP == Len(pu) < 2 /\ \E s \in Pick(1..20) : pu' = Append(pu, [s |-> s, ap |-> [g \in 1..3 |-> 0]]) /\ Log([op |-> "pulse", s |-> s]) /\ UNCHANGED gr
CanApply(g, p) == pu[p].s*gr[g].m - gr[g].k \in -9..9
Apply == \E p \in Pick(1..Len(pu)), g \in Pick(1..Len(gr)), k \in Pick(-2..3) :
         /\ CanApply(g, p)
         /\ pu' = [pu EXCEPT ![p].ap[g] = @ + k]
         /\ Log([op |-> "apply", p |-> p, g |-> g, sep |-> k, u |-> pu[p].s*gr[g].m - gr[g].k, total |-> pu'[p].ap, terms |-> Show(P)]) /\ UNCHANGED gr
(* a grid reaching colours that cannot be diffracted: still a pure phase      *)
Beyond == \E g \in Pick(1..Len(gr)) : gr[g].k < 0 /\ Log([op |-> "beyond", g |-> g, s |-> gr[g].k + 12]) /\ UNCHANGED <<gr, pu>>
Init == gr = <<>> /\ pu = <<>> /\ hist = <<>>
Next == Len(hist) < DEPTH /\ (NewG \/ NewP \/ (gr # <<>> /\ (Theta \/ Query \/ (SIM /\ Query) \/ Again \/ BadOrder)) \/ (gr # <<>> /\ pu # <<>> /\ Apply) \/ (SIM /\ gr # <<>> /\ Beyond))
Spec == Init /\ [][Next]_vars
View == <<gr, pu, Len(hist)>>
Emit == Len(hist) = DEPTH => PrintT(ToJson([h |-> hist]))
(* applying a separation and its negative leaves no net separation            *)
Last == hist[Len(hist)]
Undo == \A p \in 1..Len(pu) : \A g \in 1..3 : g > Len(gr) => pu[p].ap[g] = 0
===============================================================================
