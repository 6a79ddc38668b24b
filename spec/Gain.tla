--------------------------------- MODULE Gain ---------------------------------
(* Gain of fibres (C23).  Frequencies are integers: the grid of a pulse sits  *)
(* at even ones, the nodes of a measured gain spectrum at odd ones.  A fibre  *)
(* has no gain, a flat gain, or a spectrum: a cubic in frequency between the  *)
(* first and the last node (which cubic interpolation reproduces exactly) and *)
(* nothing outside.  The spectrum is used up to one factor, fixed by the      *)
(* power with which a pulse has to leave the fibre.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS DEPTH, SIM, HALF
VARIABLES fs, ps, hist
vars == <<fs, ps, hist>>
Pick(S) == IF SIM THEN {RandomElement(S)} ELSE S
Log(x) == hist' = Append(hist, x)
Poly(c, x) == c[1] + c[2]*x + c[3]*x*x + c[4]*x*x*x
G(f, x) == CASE f.kind = "none" -> 0 [] f.kind = "flat" -> f.g [] f.kind = "spectrum" -> IF x > f.lo /\ x < f.hi THEN Poly(f.c, x) ELSE 0
Grid(p) == [i \in 1..(2*p.half) |-> p.m + p.s*(i - 1 - p.half)]
Spectrum(f, p) == [i \in 1..(2*p.half) |-> G(f, Grid(p)[i])]
None == [kind |-> "none", g |-> 0, lo |-> 0, hi |-> 0, n |-> 0, c |-> <<0, 0, 0, 0>>]
Flat(g) == [None EXCEPT !.kind = IF g = 0 THEN "none" ELSE "flat", !.g = g]
(* made positive over its range by raising the constant                       *)
Lift(c, lo, hi) == LET m == CHOOSE y \in {Poly(c, x) : x \in lo..hi} : \A x \in lo..hi : y <= Poly(c, x) IN
    [c EXCEPT ![1] = @ + (IF m < 1 THEN 1 - m ELSE 0)]
Specs == IF ~SIM THEN {[None EXCEPT !.kind = "spectrum", !.lo = -5, !.hi = 7, !.n = 4], [None EXCEPT !.kind = "spectrum", !.lo = -13, !.hi = 15, !.n = 7]} ELSE {[None EXCEPT !.kind = "spectrum", !.lo = lo, !.hi = lo + w*n, !.n = n] : lo \in {-13, -5, 1}, w \in {2, 4}, n \in {4, 7}} \cup {[None EXCEPT !.kind = "spectrum", !.lo = -41, !.hi = 39, !.n = n] : n \in {8, 10}}
C0 == IF SIM THEN 0..60 ELSE {2}
C1 == IF SIM THEN -3..3 ELSE {1}
C2 == IF SIM THEN -1..1 ELSE {0, -1}
C3 == IF SIM THEN {0, 0, 1, -1} ELSE {0}
NewF == Len(fs) < 3 /\ \E w \in Pick({"gen", "file", "db", "db", "db"}), g \in Pick(-2..4), s \in Pick(Specs), c0 \in Pick(C0), c1 \in Pick(C1), c2 \in Pick(C2), c3 \in Pick(C3) :
        LET f == IF w = "db" THEN [s EXCEPT !.c = Lift(<<c0, c1, c2, c3>>, s.lo, s.hi)] ELSE Flat(g) IN
        fs' = Append(fs, f) /\ Log([op |-> "fibre", how |-> w, f |-> f]) /\ UNCHANGED ps
Again == \E i \in Pick(1..Len(fs)), w \in Pick({"gen", "file", "db", "dbnone"}), g \in Pick(-2..4), s \in Pick(Specs), c0 \in Pick(C0), c1 \in Pick(C1), c2 \in Pick(C2), c3 \in Pick(C3) :
        LET f == IF w = "db" THEN [s EXCEPT !.c = Lift(<<c0, c1, c2, c3>>, s.lo, s.hi)] ELSE IF w = "dbnone" THEN None ELSE Flat(g) IN
        fs' = [fs EXCEPT ![i] = f] /\ Log([op |-> "again", i |-> i, how |-> w, f |-> f]) /\ UNCHANGED ps
NewP == Len(ps) < 3 /\ \E m \in Pick({-4, -2, 0, 2}), s \in Pick({2, 4}), h \in Pick(IF SIM THEN {2, 4, 8} ELSE {HALF}), r \in Pick(1..3) :
        ps' = Append(ps, [m |-> m, s |-> s, half |-> h, frep |-> r]) /\ Log([op |-> "pulse", p |-> ps'[Len(ps')]]) /\ UNCHANGED fs
Covered(f, p) == \A i \in 1..(2*p.half) : Spectrum(f, p)[i] > 0
Reached(f, p) == \E i \in 1..(2*p.half) : Spectrum(f, p)[i] > 0
(* powers that can be reached: more than goes in, if anything is amplified;   *)
(* less, only if everything is                                                *)
Ratios(f, p) == {r \in {<<1, 4>>, <<1, 2>>, <<1, 1>>, <<3, 1>>, <<10, 1>>, <<300, 1>>} : f.kind # "spectrum" \/ (r[1] >= r[2] /\ Reached(f, p)) \/ Covered(f, p)}
Query == \E i \in Pick(1..Len(fs)), j \in Pick(1..Len(ps)), what \in Pick({"gain", "through"}) : Ratios(fs[i], ps[j]) # {} /\ \E r \in Pick(Ratios(fs[i], ps[j])) :
        Log([op |-> what, i |-> i, j |-> j, r |-> r, fit |-> fs[i].kind = "spectrum", v |-> Spectrum(fs[i], ps[j])]) /\ UNCHANGED <<fs, ps>>
Goal == \E i \in Pick(1..Len(fs)), j \in Pick(1..Len(ps)), r \in Pick({<<3, 2>>, <<3, 1>>, <<10, 1>>}), n \in Pick(1..3), t \in Pick({5, 10, 50}), g \in Pick({"none", "low", "high", "much"}) :
        /\ fs[i].kind = "spectrum" /\ Covered(fs[i], ps[j])
        /\ Log([op |-> "goal", i |-> i, j |-> j, r |-> r, n |-> n, tol |-> t, guess |-> g, v |-> Spectrum(fs[i], ps[j])]) /\ UNCHANGED <<fs, ps>>
Init == fs = <<>> /\ ps = <<>> /\ hist = <<>>
Next == Len(hist) < DEPTH /\ (NewF \/ NewP \/ (fs # <<>> /\ Again) \/ (fs # <<>> /\ ps # <<>> /\ (Query \/ (SIM /\ (Query \/ Query \/ Goal)))))
Spec == Init /\ [][Next]_vars
View == <<fs, ps, Len(hist)>>
Emit == Len(hist) = DEPTH => PrintT(ToJson([h |-> hist]))
-------------------------------------------------------------------------------
(* The factor is unique: the power leaving (gain factors 2^(k g)) grows with k *)
RECURSIVE Sum(_, _)
Sum(v, n) == IF n = 0 THEN 0 ELSE v[n] + Sum(v, n - 1)
Low(x) == IF x > 7 THEN 7 ELSE x
Out(v, k) == Sum([i \in 1..Len(v) |-> 2^(k*Low(v[i]))], Len(v))
Unique == \A i \in 1..Len(fs), j \in 1..Len(ps) : LET v == Spectrum(fs[i], ps[j]) IN
   fs[i].kind = "spectrum" => /\ \A x \in 1..Len(v) : v[x] >= 0
                              /\ Reached(fs[i], ps[j]) => \A k \in 0..2 : Out(v, k) < Out(v, k + 1)
(* the same spectrum seen on a finer grid agrees where the grids meet         *)
Finer == \A i \in 1..Len(fs), j \in 1..Len(ps) : ps[j].s = 4 =>
   LET v == Spectrum(fs[i], ps[j]) w == Spectrum(fs[i], [ps[j] EXCEPT !.s = 2, !.half = 2*@]) IN \A x \in 1..Len(v) : v[x] = w[2*x - 1]
===============================================================================
