-------------------------------- MODULE Fibre ---------------------------------
(* What a fibre's description means on a pulse's grid (C14).  Frequencies    *)
(* are integers (units h0) relative to a common origin.  A fibre has the     *)
(* phase polynomial, about its own reference frequency r,                    *)
(*     24 P(x) = 12 b2 (x-r)^2 + 4 b3 (x-r)^3 + b4 (x-r)^4                    *)
(* with coefficients that may vary linearly with position.  However it is    *)
(* described (Taylor coefficients per metre or kilometre, a table of D, a    *)
(* table of the refractive index), the propagation constant on a pulse grid  *)
(* x = m + s j is P minus its tangent at the pulse's centre m.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS DEPTH, SIM, SMALL,
          NF           \* most fibres (and pulses) in one session
VARIABLES fibres, pulses, hist
vars == <<fibres, pulses, hist>>
Pick(S) == IF SIM /\ S # {} THEN {RandomElement(S)} ELSE S
Fmt == {"m", "km", "D", "n", "db", "dbkm", "dbD", "file"}
P24(b, r, x) == 12*b[1]*(x-r)*(x-r) + 4*b[2]*(x-r)*(x-r)*(x-r) + b[3]*(x-r)*(x-r)*(x-r)*(x-r)
dP24(b, r, x) == 24*b[1]*(x-r) + 12*b[2]*(x-r)*(x-r) + 4*b[3]*(x-r)*(x-r)*(x-r)
ddP24(b, r, x) == 24*b[1] + 24*b[2]*(x-r) + 12*b[3]*(x-r)*(x-r)
Js(p) == -p.half..(p.half - 1)
BAt(f, z) == [k \in 1..3 |-> f.b[k] + (IF f.zdep THEN f.d[k]*z ELSE 0)]
(* the propagation constant, 24-fold, at every j of the grid of pulse p, tangent removed *)
Beta(f, p, z) == LET b == BAt(f, z) a == P24(b, f.r, p.m) t == dP24(b, f.r, p.m)*p.s IN
   [i \in 1..(2*p.half) |-> P24(b, f.r, p.m + p.s*(i - 1 - p.half)) - a - t*(i - 1 - p.half)]
(* its second difference, the end values repeated: 24 h^2 beta2 *)
Second(v) == LET n == Len(v) d == [i \in 1..n |-> IF i = 1 \/ i = n THEN 0 ELSE v[i+1] - 2*v[i] + v[i-1]] IN
   [i \in 1..n |-> IF i = 1 THEN d[2] ELSE IF i = n THEN d[n-1] ELSE d[i]]
(* the numerical slope at the centre: what is left of the tangent (24-fold, twice) *)
Slope2(f, p, z) == LET v == Beta(f, p, z) IN v[p.half + 2] - v[p.half]
Gamma(f, z) == f.g + (IF f.gz THEN f.dg*z ELSE 0)
-------------------------------------------------------------------------------
Trip(S) == [1..3 -> S]
Bs == IF SMALL THEN {<<2, 1, 0>>, <<-1, 0, 3>>} ELSE Trip(-4..4)
Log(x) == hist' = Append(hist, x)
Describe == \* a new fibre
  /\ Len(fibres) < NF
  /\ \E fmt \in Pick(Fmt), b \in Pick(Bs), r \in Pick(IF SMALL THEN {0, 3} ELSE -12..12), g \in Pick(IF SMALL THEN {2} ELSE 0..9) :
     LET f == [fmt |-> fmt, b |-> (IF fmt = "n" THEN [b EXCEPT ![3] = 0] ELSE b), d |-> <<0,0,0>>, r |-> r, g |-> g, dg |-> 0, zdep |-> FALSE, gz |-> FALSE] IN
     fibres' = Append(fibres, f) /\ Log([op |-> "fibre", f |-> f]) /\ UNCHANGED pulses
Redescribe == \* the same object is given a new description
  /\ \E i \in Pick(1..Len(fibres)), fmt \in Pick({"m", "km", "db", "file"}), b \in Pick(Bs), r \in Pick(IF SMALL THEN {1} ELSE -12..12) :
     /\ ~fibres[i].zdep /\ ~fibres[i].gz /\ fibres[i].fmt # "n"
     /\ LET f == [fibres[i] EXCEPT !.fmt = fmt, !.b = b, !.r = r] IN
        fibres' = [fibres EXCEPT ![i] = f] /\ Log([op |-> "again", i |-> i, f |-> f]) /\ UNCHANGED pulses
Vary == \* dispersion that varies along the fibre, in any format, whatever was described before
  /\ \E i \in Pick(1..Len(fibres)), b \in Pick(Bs), d \in Pick(Bs), fmt \in Pick({"GVD", "D", "n"}) :
     /\ (fmt = "D") => fibres[i].fmt \in {"D", "dbD", "file"}        \* the order of the fit belongs to these
     /\ LET f == [fibres[i] EXCEPT !.zdep = TRUE, !.d = (IF fmt = "n" THEN [d EXCEPT ![3] = 0] ELSE d),
                                   !.b = (IF fmt = "n" THEN [b EXCEPT ![3] = 0] ELSE b)] IN
        /\ (fmt = "GVD" => fibres[i].fmt \in {"m", "km", "db", "dbkm"})
        /\ fibres' = [fibres EXCEPT ![i] = f] /\ Log([op |-> "vary", i |-> i, fmt |-> fmt, f |-> f]) /\ UNCHANGED pulses
VaryG == \E i \in Pick(1..Len(fibres)), g \in Pick(IF SMALL THEN {3} ELSE 0..9), dg \in Pick(IF SMALL THEN {1} ELSE -3..3) :
     /\ fibres' = [fibres EXCEPT ![i].gz = TRUE, ![i].g = g, ![i].dg = dg]
     /\ Log([op |-> "varyg", i |-> i, f |-> fibres'[i]]) /\ UNCHANGED pulses
NewPulse == /\ Len(pulses) < NF
  /\ \E m \in Pick(IF SMALL THEN {0, 2} ELSE -10..10), s \in Pick({1, 2}), half \in Pick(IF SMALL THEN {2} ELSE {4, 5, 8, 12}) :
     LET p == [m |-> m, s |-> s, half |-> half] IN
     pulses' = Append(pulses, p) /\ Log([op |-> "pulse", p |-> p]) /\ UNCHANGED fibres
(* often ask again where it was asked before: an answer must not be remembered past a change *)
Asked == {hist[k].z : k \in {x \in 1..Len(hist) : hist[x].op = "betas"}}
Zs == IF SIM /\ Asked # {} THEN {IF RandomElement(0..1) = 1 + 0*Len(hist) THEN RandomElement(Asked) ELSE RandomElement(0..4)} ELSE Pick(0..4)
Query == /\ fibres # <<>> /\ pulses # <<>>
  /\ \E i \in Pick(1..Len(fibres)), j \in Pick(1..Len(pulses)), z \in Zs, what \in Pick({"betas", "betas", "beta2", "D"}) :
     LET zz == IF what = "betas" THEN z ELSE 0 IN
     \E v \in {Beta(fibres[i], pulses[j], zz)} :
     /\ Log([op |-> what, i |-> i, j |-> j, z |-> zz, v |-> (IF what = "betas" THEN v ELSE Second(v)), slope2 |-> v[pulses[j].half + 2] - v[pulses[j].half]])
     /\ UNCHANGED <<fibres, pulses>>
QueryG == /\ fibres # <<>>
  /\ \E i \in Pick(1..Len(fibres)), z \in Pick(0..4) :
     Log([op |-> "gamma", i |-> i, z |-> z, v |-> Gamma(fibres[i], z)]) /\ UNCHANGED <<fibres, pulses>>
(* the Taylor coefficients of beta2 about the pulse's centre (twice the first), as the fit of a table of D gives them *)
Fit == /\ pulses # <<>>
  /\ \E i \in Pick({k \in 1..Len(fibres) : fibres[k].fmt \in {"D", "dbD", "file"} /\ ~fibres[k].zdep}), j \in Pick(1..Len(pulses)) :
     LET b == fibres[i].b k == pulses[j].m - fibres[i].r IN
     Log([op |-> "fit", i |-> i, j |-> j, v |-> <<2*b[1] + 2*b[2]*k + b[3]*k*k, b[2] + b[3]*k, b[3]>>]) /\ UNCHANGED <<fibres, pulses>>
Init == fibres = <<>> /\ pulses = <<>> /\ hist = <<>>
Next == Len(hist) < DEPTH /\ (Describe \/ (fibres # <<>> /\ (Redescribe \/ Vary \/ VaryG)) \/ NewPulse \/ Query \/ QueryG \/ Fit)
Spec == Init /\ [][Next]_vars
Emit == (Len(hist) = DEPTH /\ \E k \in 1..DEPTH : hist[k].op \in {"betas", "beta2", "D"}) => PrintT(ToJson([h |-> hist]))
-------------------------------------------------------------------------------
Pairs == {<<f, p>> \in {fibres[i] : i \in 1..Len(fibres)} \X {pulses[j] : j \in 1..Len(pulses)} : TRUE}
(* value removed at the centre; what is left of the slope is only the grid's *)
Removed == \A q \in Pairs : LET f == q[1] p == q[2] v == Beta(f, p, 0) IN
   /\ v[p.half + 1] = 0
   /\ (BAt(f, 0)[2] = 0 /\ BAt(f, 0)[3] = 0) => Slope2(f, p, 0) = 0
   /\ Slope2(f, p, 0) = 8*p.s*p.s*p.s*(BAt(f,0)[2] + BAt(f,0)[3]*(p.m - f.r))
(* the same fibre described about another reference is the same fibre *)
Moved(b, k) == <<b[1] + b[2]*k + (b[3]*k*k) \div 2, b[2] + b[3]*k, b[3]>>
Recentred == \A q \in Pairs : LET f == q[1] p == q[2] IN \A k \in {2, 4} :
   Beta(f, p, 0) = Beta([f EXCEPT !.b = Moved(f.b, k), !.r = @ + k], p, 0)
(* the second difference is beta2 (plus the grid's own b4/12) *)
Curvature == \A q \in Pairs : LET f == q[1] p == q[2] w == Second(Beta(f, p, 0)) IN \A j \in (1 - p.half)..(p.half - 2) :
   w[j + 1 + p.half] = p.s*p.s*(ddP24(BAt(f, 0), f.r, p.m + p.s*j) + 2*BAt(f, 0)[3]*p.s*p.s)
(* a coarser grid sees the same curve *)
Coarse == \A q \in Pairs : LET f == q[1] p == q[2] IN p.s = 2 =>
   LET v == Beta(f, p, 0) w == Beta(f, [p EXCEPT !.s = 1, !.half = 2*p.half], 0) IN \A i \in 1..(2*p.half) : v[i] = w[2*i - 1]
Unchanged == [][(\A i \in 1..Len(pulses) : pulses'[i] = pulses[i])]_vars
=============================================================================
