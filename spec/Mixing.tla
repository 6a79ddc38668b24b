-------------------------------- MODULE Mixing --------------------------------
(* Three-wave mixing (C17).  Pump, signal and idler have 2H bins each, at     *)
(* offsets -H..H-1 from their centres; the centres balance, so bins (j, a, b) *)
(* conserve photon energy exactly when j = a + b.  Amplitudes are Gaussian    *)
(* integers <<re, im>> (phase and field-to-power factor taken out).           *)
(*   R_p(j) = sum s(a) i(b)         R_s(a) = sum p(j) conj i(b)               *)
(*   R_i(b) = sum p(j) conj s(a)    over all j = a + b                        *)
(* A problem evaluates its rates again and again, for different fields and    *)
(* positions, interleaved with other problems.  The beams may be refocused in  *)
(* between: the smallest one sets the area, the bins coupled stay the same.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS DEPTH, SIM, NPROB, HS, AMP
VARIABLES H, prob, f, r, sg, small, hist
vars == <<H, prob, f, r, sg, small, hist>>
Pick(S) == IF SIM THEN {RandomElement(S)} ELSE S
Zero == <<0, 0>>
Add(x, y) == <<x[1] + y[1], x[2] + y[2]>>
Mul(x, y) == <<x[1]*y[1] - x[2]*y[2], x[1]*y[2] + x[2]*y[1]>>
Conj(x) == <<x[1], -x[2]>>
MulI(x) == <<-x[2], x[1]>>
Bins(h) == (-h)..(h-1)
RECURSIVE Sum(_, _)
Sum(F, S) == IF S = {} THEN Zero ELSE LET e == CHOOSE e \in S : TRUE IN Add(F[e], Sum(F, S \ {e}))
Nz(g) == {k \in DOMAIN g : g[k] # Zero}
Rates(h, g) == LET p == g.p s == g.s i == g.i B == Bins(h) np == Nz(p) ns == Nz(s) ni == Nz(i) IN
  [p |-> [j \in B |-> LET A == {a \in ns : j - a \in ni} IN Sum([a \in A |-> Mul(s[a], i[j - a])], A)],
   s |-> [a \in B |-> LET J == {j \in np : j - a \in ni} IN Sum([j \in J |-> Mul(p[j], Conj(i[j - a]))], J)],
   i |-> [b \in B |-> LET J == {j \in np : j - b \in ns} IN Sum([j \in J |-> Mul(p[j], Conj(s[j - b]))], J)]]
-------------------------------------------------------------------------------
Amps == ((-AMP)..AMP) \X ((-AMP)..AMP)
(* a field: a few bins, the outermost ones, or all of them                    *)
Field(h, k) == CASE k = "few" -> [b \in Bins(h) |-> IF RandomElement(1..4) = 1 THEN RandomElement(Amps) ELSE Zero]
              [] k = "edge" -> [b \in Bins(h) |-> IF b \in {-h, h-1} THEN RandomElement(Amps) ELSE Zero]
              [] k = "one" -> LET c == RandomElement(Bins(h)) IN [b \in Bins(h) |-> IF b = c THEN RandomElement(Amps) ELSE Zero]
              [] k = "none" -> [b \in Bins(h) |-> Zero]
              [] OTHER -> [b \in Bins(h) |-> RandomElement(Amps)]
Few(h) == IF SIM THEN {} ELSE [Bins(h) -> {Zero, <<1, 0>>, <<0, 1>>}]
Kinds == {"few", "edge", "one", "none", "all"}
Fields(h) == IF SIM THEN {Field(h, RandomElement(Kinds))} ELSE Few(h)
Tup(g) == [j \in 1..(2*H) |-> g[j - 1 - H]]
Out(g) == [p |-> Tup(g.p), s |-> Tup(g.s), i |-> Tup(g.i)]
Eval == \E q \in Pick(1..NPROB), sgn \in Pick({1, -1}), p \in Fields(H), s \in Fields(H), i \in Fields(H) :
   LET g == [p |-> p, s |-> s, i |-> i] IN
   /\ f' = g /\ \E x \in {Rates(H, g)} : r' = x /\ hist' = (IF SIM THEN Append(hist, [op |-> "eval", q |-> q, s |-> sgn, w |-> small[q], f |-> Out(g), r |-> Out(x)]) ELSE hist)
   /\ sg' = sgn /\ prob' = q /\ UNCHANGED <<H, small>>
(* the beam of this wave becomes the smallest one (pump, signal, idler)       *)
Focus == SIM /\ \E q \in Pick(1..NPROB), w \in Pick({"pump", "sgnl", "idlr"}) :
   /\ small' = [small EXCEPT ![q] = w] /\ hist' = Append(hist, [op |-> "focus", q |-> q, w |-> w]) /\ UNCHANGED <<H, prob, f, r, sg>>
Empty == [p |-> [b \in Bins(H) |-> Zero], s |-> [b \in Bins(H) |-> Zero], i |-> [b \in Bins(H) |-> Zero]]
Init == H \in Pick(HS) /\ prob = 0 /\ f = Empty /\ r = Empty /\ sg = 1 /\ small = [q \in 1..NPROB |-> "pump"] /\ hist = <<>>
Next == (IF SIM THEN Len(hist) < DEPTH ELSE prob = 0) /\ (Eval \/ Eval \/ Eval \/ Focus)
Spec == Init /\ [][Next]_vars
Emit == (SIM /\ Len(hist) = DEPTH) => PrintT(ToJson([h |-> H, ev |-> hist]))
-------------------------------------------------------------------------------
(* d|A|^2 of each wave, from i times its rate: photons per unit length        *)
Gain(g, x) == LET B == Bins(H) IN Sum([b \in B |-> <<Mul(Conj(g[b]), MulI(x[b]))[1], 0>>], B)[1]
PhotonBalance == /\ Gain(f.s, r.s) = Gain(f.i, r.i) /\ Gain(f.p, r.p) = -Gain(f.s, r.s)
(* a bin is driven only if some pair of bins adds up to it                    *)
Reach == /\ \A j \in Bins(H) : r.p[j] # Zero => \E a \in Nz(f.s), b \in Nz(f.i) : j = a + b
         /\ \A a \in Bins(H) : r.s[a] # Zero => \E j \in Nz(f.p), b \in Nz(f.i) : j = a + b
         /\ \A b \in Bins(H) : r.i[b] # Zero => \E j \in Nz(f.p), a \in Nz(f.s) : j = a + b
(* a common phase of signal and idler is that of the pump                     *)
Rot(g) == [b \in DOMAIN g |-> MulI(g[b])]
Covariant == LET g == [p |-> [b \in Bins(H) |-> <<-f.p[b][1], -f.p[b][2]>>], s |-> Rot(f.s), i |-> Rot(f.i)] x == Rates(H, g) IN
   /\ x.p = [b \in Bins(H) |-> <<-r.p[b][1], -r.p[b][2]>>] /\ x.s = Rot(r.s) /\ x.i = Rot(r.i)
(* signal and idler play the same part                                        *)
Exchange == LET x == Rates(H, [p |-> f.p, s |-> f.i, i |-> f.s]) IN x.p = r.p /\ x.s = r.i /\ x.i = r.s
===============================================================================
