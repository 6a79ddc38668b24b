-------------------------------- MODULE Gnlse ---------------------------------
(* The generalised nonlinear Schroedinger equation on a grid of n frequency   *)
(* bins, as sums over products of three bins (C27).  Bin k is at k spacings   *)
(* from the centre, k = -n/2 .. n/2-1.  The pulse's power at difference       *)
(* frequency d drives, weighted by the response R(d) of the glass, bin l into *)
(* bin l+d; self-steepening weighs each product by 1 + w/w0, w = l + d before *)
(* folding back into the grid.  Everything here is exact: fields are Gaussian *)
(* integers, and the response is left symbolic (a sum for every d).           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NS, AMPS, RAMAN, SESS, SIM, EVEN
VARIABLES n, f, opt, sess
vars == <<n, f, opt, sess>>
Pick(S) == IF SIM /\ S # {} THEN {RandomElement(S)} ELSE S
Bins(N) == (-(N \div 2))..(N - 1 - N \div 2)
Fold(N, x) == ((x + N \div 2) % N) - N \div 2
CMul(a, b) == <<a[1]*b[1] - a[2]*b[2], a[1]*b[2] + a[2]*b[1]>>
CAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Conj(a) == <<a[1], -a[2]>>
RECURSIVE SumOver(_, _)
SumOver(S, g) == IF S = {} THEN <<0, 0>> ELSE LET x == CHOOSE y \in S : TRUE IN CAdd(g[x], SumOver(S \ {x}, g))
(* power spectrum: sum over m - p = d (folded) of A_m A_p^* *)
Pow(N, a, d) == LET S == Bins(N) IN SumOver(S, [m \in S |-> CMul(a[m], Conj(a[Fold(N, m - d)]))])
PowTab(N, a) == [d \in Bins(N) |-> Pow(N, a, d)]
(* all drives <<w, d, amount>> of bin k *)
Drives(N, a, k) == CHOOSE r \in {[l \in Bins(N) |-> [w |-> l + Fold(N, k - l), d |-> Fold(N, k - l), s |-> CMul(a[l], q[Fold(N, k - l)])]] : q \in {PowTab(N, a)}} : TRUE
-------------------------------------------------------------------------------
Fields(N) == [Bins(N) -> AMPS]
RandomField(N, x) == IF x THEN [k \in Bins(N) |-> RandomElement(AMPS)] ELSE [k \in Bins(N) |-> IF k \in -1..1 THEN RandomElement(AMPS) ELSE <<0, 0>>]
Options == [raman : RAMAN, steep : BOOLEAN, solver : 0..2, fast : BOOLEAN, shift : BOOLEAN, whole : BOOLEAN]
Init == /\ n \in NS /\ sess = <<>>
        /\ f \in (IF SIM THEN {[k \in Bins(n) |-> <<1, 0>>]} ELSE {[k \in Bins(n) |-> IF k \in -1..1 THEN g[k] ELSE <<0, 0>>] : g \in [-1..1 -> AMPS]})
        /\ opt \in (IF SIM THEN {CHOOSE o \in Options : TRUE} ELSE {[raman |-> x, steep |-> TRUE, solver |-> 0, fast |-> TRUE, shift |-> TRUE, whole |-> FALSE] : x \in RAMAN})
Next == /\ Len(sess) < SESS
        /\ sess' = Append(sess, [n |-> n, f |-> f, opt |-> opt])
        /\ \E m \in Pick(NS) : n' = m /\ f' \in {RandomField(m, Len(sess) % 3 # 1)}
        /\ opt' \in Pick(Options)
Spec == Init /\ [][Next]_vars
Row(N, a, k) == CHOOSE r \in {[i \in 1..N |-> g[i - 1 - N \div 2]] : g \in {Drives(N, a, k)}} : TRUE
Step(x) == [n |-> x.n, opt |-> x.opt, f |-> [i \in 1..x.n |-> x.f[i - 1 - x.n \div 2]], rows |-> [i \in 1..x.n |-> Row(x.n, x.f, i - 1 - x.n \div 2)]]
Emit == (Len(sess) = SESS) => PrintT(ToJson([h |-> [j \in 1..(SESS-1) |-> Step(sess[j+1])]]))
-------------------------------------------------------------------------------
(* The exact laws behind the equation, for small fields that do not reach the *)
(* edge of the grid and every response in EVEN: responses r with r(-d) = r(d)^*, *)
(* whose imaginary part is not negative at positive d.                         *)
Resp(r, d) == IF d < 0 THEN Conj(r[1 - d]) ELSE r[d + 1]
(* d/dz of |A_k|^2 over 2 gamma, without the factor 1 + w/w0: Re(A_k^* i sum_d R_d S_kd) *)
Rate(N, a, r, k) == LET q == Drives(N, a, k)
                        t == SumOver(Bins(N), [l \in Bins(N) |-> CMul(Resp(r, q[l].d), q[l].s)])
                    IN CMul(Conj(a[k]), <<-t[2], t[1]>>)[1]
RECURSIVE ISum(_, _)
ISum(S, g) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN g[x] + ISum(S \ {x}, g)
Inner == \A k \in Bins(n) : f[k] # <<0, 0>> => k \in -1..1
Laws == (~SIM /\ Inner /\ n >= 7) => \A r \in EVEN : \E g \in {[k \in Bins(n) |-> Rate(n, f, r, k)]} :
          /\ ISum(Bins(n), g) = 0                                         \* energy, or photon number with the factor
          /\ ISum(Bins(n), [k \in Bins(n) |-> k*g[k]]) <= 0               \* the mean frequency does not rise
          /\ ((\A d \in 0..n \div 2 : r[d + 1][2] = 0) => ISum(Bins(n), [k \in Bins(n) |-> k*g[k]]) = 0)
NoFold == (~SIM /\ Inner /\ n >= 7) => \A k \in Bins(n) : \E q \in {Drives(n, f, k)} : \A l \in Bins(n) : q[l].s # <<0, 0>> => q[l].w = k
(* an instantaneous response is the product in time: one number for all d, so the sum is over all l, m *)
Cubic(N, a, k) == SumOver(Bins(N) \X Bins(N), [x \in Bins(N) \X Bins(N) |-> CMul(CMul(a[x[1]], a[x[2]]), Conj(a[Fold(N, x[1] + x[2] - k)]))])
Instant == ~SIM => \A k \in Bins(n) : SumOver(Bins(n), [l \in Bins(n) |-> Drives(n, f, k)[l].s]) = Cubic(n, f, k)
===============================================================================
