----------------------------- MODULE FibreLattice -----------------------------
(* Sessions of fibre propagation that can be computed exactly (C12, C13).    *)
(* A pulse is of kind "F" (its spectral bins, in three channels, carry       *)
(* phases in units of 2 pi / M and powers 2^(g/4)) or of kind "T" (the same   *)
(* for its time samples, channel c starting with power P[c]).  A fibre is    *)
(* either linear, multiplying spectral bins, or dispersionless, giving time  *)
(* samples a phase proportional to their power; both may have gain.          *)
(* Dispersion and nonlinearity may vary linearly along the fibre; they are   *)
(* taken at the start of each output interval if reloading is asked for, and *)
(* at the start of the fibre otherwise.                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS DEPTH, SIM, NPULSE, SMALL
VARIABLES pulses, fibres, nsolv, hist
vars == <<pulses, fibres, nsolv, hist>>
Ch == 1..3
Pick(S) == IF SIM THEN {RandomElement(S)} ELSE S
Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
Zero == <<0, 0, 0>>
Trip(S) == [Ch -> S]
-------------------------------------------------------------------------------
(* length of one output interval and the interval's own dispersion *)
At(f, z) == [c \in Ch |-> f.b[c] + f.db[c]*z]
GamAt(f, z) == f.gam + f.dgam*z
Pow(g) == 2^(g \div 4)
(* one interval of length d starting at z (as far as the coefficients go) *)
Linear(p, f, d, z) == [p EXCEPT !.e = [c \in Ch |-> p.e[c] + At(f, z)[c]*d], !.g = [c \in Ch |-> p.g[c] + f.k[c]*d]]
Kerr(p, f, d, z) ==
  [p EXCEPT !.e = [c \in Ch |-> p.e[c] + GamAt(f, z)*p.P[c]*
                      (IF f.k[c] = 0 THEN Pow(p.g[c])*d ELSE Sgn(f.k[c])*(Pow(p.g[c] + f.k[c]*d) - Pow(p.g[c])))],
            !.g = [c \in Ch |-> p.g[c] + f.k[c]*d]]
Step(p, f, d, z) == IF f.kind = "L" THEN Linear(p, f, d, z) ELSE Kerr(p, f, d, z)
RECURSIVE Cols(_, _, _, _, _, _)
Cols(p, f, d, i, n, re) == IF i = n THEN <<>> ELSE
   LET q == Step(p, f, d, IF re THEN i*d ELSE 0) IN <<q>> \o Cols(q, f, d, i + 1, n, re)
-------------------------------------------------------------------------------
Flat(p) == p.P[1] = p.P[2] /\ p.P[2] = p.P[3]
(* combinations that the exact description covers *)
Fits(p, f, n, raman) ==
  /\ f.len % n = 0
  /\ f.kind = "L" => p.kind = "F"
  /\ f.kind = "N" => /\ p.kind = "T" /\ (raman => Flat(p))
                     /\ \A c \in Ch : (f.k[c]*(f.len \div n)) % 4 = 0 /\ p.g[c] % 4 = 0 /\ p.g[c] >= 0
                                      /\ p.g[c] + f.k[c]*f.len >= 0 /\ p.g[c] + f.k[c]*f.len <= 12
  /\ \A c \in Ch : Abs(p.g[c] + f.k[c]*f.len) <= 120
Small(p) == \A c \in Ch : Abs(p.e[c]) < (IF p.kind = "T" THEN 500 ELSE 1000000)
LCh == IF SMALL THEN {<<-1, 2, 2>>, <<0, 0, 3>>} ELSE Trip(-5..5)
NewFibre ==
  /\ Len(fibres) < 3
  /\ \E kind \in Pick({"L", "N"}), len \in Pick(IF SMALL THEN {2, 4} ELSE {1, 2, 3, 4, 6, 8, 12}), vary \in Pick({TRUE, FALSE}), gk \in Pick(IF SMALL THEN {"none", "spectrum"} ELSE {"none", "flat", "spectrum"}) :
     \E b \in Pick(LCh), db \in Pick(Trip(IF SMALL THEN {1} ELSE -3..3)), k0 \in Pick(IF SMALL THEN {1} ELSE -2..2), ks \in Pick(Trip(IF SMALL THEN {1} ELSE -3..3)),
        gam \in Pick(IF SMALL THEN {3} ELSE -6..9), dg \in Pick(IF SMALL THEN {1} ELSE -1..2), kn \in Pick(IF SMALL THEN {0, 2, -2} ELSE {0, 1, 2, 4, -1, -2}) :
       LET f == [kind |-> kind, len |-> len, vary |-> vary,
                 b |-> IF kind = "L" THEN b ELSE Zero, db |-> IF kind = "L" /\ vary THEN db ELSE Zero,
                 gam |-> IF kind = "N" THEN gam ELSE 0, dgam |-> IF kind = "N" /\ vary THEN dg ELSE 0,
                 k |-> IF kind = "N" THEN <<kn, kn, kn>> ELSE IF gk = "none" THEN Zero ELSE IF gk = "flat" THEN <<k0, k0, k0>> ELSE ks] IN
       /\ fibres' = Append(fibres, f)
       /\ hist' = Append(hist, [op |-> "fibre", f |-> f])
       /\ UNCHANGED <<pulses, nsolv>>
NewPulse ==
  /\ Len(pulses) < NPULSE
  /\ \E kind \in Pick({"F", "T"}), P \in Pick(IF SMALL THEN {<<1,1,1>>, <<0,1,2>>} ELSE {<<1,1,1>>, <<1,2,3>>, <<0,1,2>>, <<2,2,2>>, <<4,1,0>>, <<0,0,0>>, <<1,3,1>>}), size \in Pick(IF SMALL THEN {"a"} ELSE {"a", "b"}) :
       LET p == [kind |-> kind, P |-> P, e |-> Zero, g |-> Zero, size |-> size] IN
       /\ pulses' = Append(pulses, p)
       /\ hist' = Append(hist, [op |-> "pulse", p |-> p])
       /\ UNCHANGED <<fibres, nsolv>>
NS == IF SMALL THEN {1, 2} ELSE {1, 2, 3, 4, 6, 12}
Propagate ==
  /\ pulses # <<>> /\ fibres # <<>> /\ Len(pulses) < NPULSE + 6
  /\ \E ts \in {{t \in (1..Len(pulses)) \X (1..Len(fibres)) \X NS \X BOOLEAN : Fits(pulses[t[1]], fibres[t[2]], t[3], t[4])}} : ts # {} /\ \E t \in Pick(ts) :
     \E s \in Pick(1..(IF nsolv < 3 THEN nsolv + 1 ELSE nsolv)), re \in Pick({TRUE, FALSE}) :
     \E cs \in {Cols(pulses[t[1]], fibres[t[2]], fibres[t[2]].len \div t[3], 0, t[3], re)} :
            /\ \A x \in 1..t[3] : Small(cs[x])
            /\ pulses' = Append(pulses, cs[t[3]])
            /\ nsolv' = (IF s > nsolv THEN s ELSE nsolv)
            /\ hist' = Append(hist, [op |-> "run", i |-> t[1], j |-> t[2], s |-> s, n |-> t[3], re |-> re, raman |-> t[4],
                                     cols |-> [x \in 1..t[3] |-> [e |-> cs[x].e, g |-> cs[x].g]]])
            /\ UNCHANGED fibres
Init == pulses = <<>> /\ fibres = <<>> /\ nsolv = 0 /\ hist = <<>>
Next == Len(hist) < DEPTH /\ (NewFibre \/ NewPulse \/ Propagate)
Spec == Init /\ [][Next]_vars
Emit == (Len(hist) = DEPTH /\ \E x \in 1..Len(hist) : hist[x].op = "run") => PrintT(ToJson([h |-> hist]))
-------------------------------------------------------------------------------
(* what any user may conclude *)
Runs == {x \in 1..Len(hist) : hist[x].op = "run"}
(* objects never change once made *)
Immutable == [][/\ \A x \in 1..Len(pulses) : pulses'[x] = pulses[x]
                /\ \A x \in 1..Len(fibres) : fibres'[x] = fibres[x]]_vars
(* without variation, or without reloading, the number of outputs does not matter *)
FibreOf(x) == fibres[hist[x].j]
OutputsDoNotMatter == \A x \in Runs : LET p == pulses[hist[x].i] f == FibreOf(x) IN
   (~f.vary \/ ~hist[x].re) => LET o == Cols(p, f, f.len, 0, 1, FALSE)[1] IN
        hist[x].cols[hist[x].n] = [e |-> o.e, g |-> o.g]
(* two halves of a uniform fibre are the whole *)
Halves == \A x \in Runs : LET p == pulses[hist[x].i] f == FibreOf(x) IN
   (~f.vary /\ f.len % 2 = 0 /\ (f.kind = "L" \/ \A c \in Ch : (f.k[c]*(f.len \div 2)) % 4 = 0 /\ p.g[c] + f.k[c]*(f.len \div 2) >= 0)) =>
        LET a == Cols(p, f, f.len \div 2, 0, 1, FALSE)[1] b == Cols(a, f, f.len \div 2, 0, 1, FALSE)[1] IN
        hist[x].cols[hist[x].n] = [e |-> b.e, g |-> b.g]
(* no gain: energy is kept *)
Energy == \A x \in Runs : (FibreOf(x).k = Zero) => \A y \in 1..hist[x].n : hist[x].cols[y].g = pulses[hist[x].i].g
(* a vanishing signal acquires no nonlinear phase *)
NoPowerNoPhase == \A x \in Runs : FibreOf(x).kind = "N" => \A c \in Ch : pulses[hist[x].i].P[c] = 0 => hist[x].cols[hist[x].n].e[c] = 0
=============================================================================
