-------------------------------- MODULE Poling --------------------------------
(* Periodic poling (C16).  Positions are integers (an arbitrary unit).  The   *)
(* period at position z is P(z); a period that starts at z ends at z + P(z),  *)
(* its first half has sign plus and its second half sign minus.  The crystal  *)
(* starts with a period at 0.  Several mixing problems are set up from one    *)
(* crystal, whose poling may be replaced in between; queries come in any      *)
(* order and are answered for the middle of the unit interval [z, z+1], or for *)
(* the exact position z (the far face included) where the sign does not change.*)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS DEPTH, SIM
VARIABLES pol, L, probs, hist
vars == <<pol, L, probs, hist>>
Pick(S) == IF SIM THEN {RandomElement(S)} ELSE S
(* poling descriptions: a constant (as number in a tuple, or as function), a  *)
(* table over sections of the crystal, a linear chirp with slope s/Q          *)
P(d, z) == CASE d.t \in {"tuple", "const"} -> d.a
             [] d.t = "table" -> d.tab[IF z \div d.w >= Len(d.tab) THEN Len(d.tab) ELSE (z \div d.w) + 1]
             [] d.t = "chirp" -> d.a + d.s*(z \div d.q)
RECURSIVE Starts(_, _, _)
Starts(d, len, z) == IF z >= len THEN <<>> ELSE <<z>> \o Starts(d, len, z + P(d, z))
Start(d, len, z) == LET q == Starts(d, len, 0) k == CHOOSE k \in 1..Len(q) : q[k] <= z /\ (k < Len(q) => z < q[k+1]) IN q[k]
Sign(d, len, z) == LET a == Start(d, len, z) IN IF 2*(z - a) < P(d, a) THEN 1 ELSE -1
Pow(b, n) == CASE n = 0 -> 1 [] n = 1 -> b [] n = 2 -> b*b [] n = 3 -> b*b*b [] n = 4 -> b*b*b*b [] OTHER -> b*b*b*b*b
(* chirps start at 2 q^k, so that the first k boundaries are exact integers   *)
RECURSIVE Walk(_, _, _)
Walk(d, k, z) == IF k = 0 THEN z ELSE Walk(d, k - 1, z + P(d, z))
Chirps == {[t |-> "chirp", a |-> 2*Pow(q, k), s |-> s, q |-> q, k |-> k] : q \in {4, 6}, k \in 2..5, s \in {-1, 1}}
Consts == {[t |-> t, a |-> 2*a] : t \in {"tuple", "const"}, a \in (IF SIM THEN 1..8 ELSE {1, 2, 5})}
Tables(n) == [t : {"table"}, w : 5..20, tab : [1..n -> {2, 4, 6, 10, 12}]]
Lens(d) == IF d.t = "chirp" THEN {Walk(d, k, 0) - (Walk(d, k, 0) % d.q) : k \in 1..d.k} ELSE IF SIM THEN 1..150 ELSE {7, 26}
Descs == Consts \cup Chirps \cup (IF SIM THEN UNION {Tables(n) : n \in {3, 5}} ELSE {[t |-> "table", w |-> 5, tab |-> <<4, 2, 6>>]})
Classes == IF SIM THEN {Consts, Chirps, Tables(3), Tables(5)} ELSE {Descs}
Log(x) == hist' = Append(hist, x)
(* the length belongs to the crystal from the start, its poling can change    *)
New == /\ L = 0 /\ \E d \in UNION {Pick(x) : x \in Classes} : \E n \in Pick(Lens(d)) :
          /\ pol' = d /\ L' = n /\ Log([op |-> "new", d |-> d, len |-> n]) /\ UNCHANGED probs
Fits(e) == IF e.t = "chirp" THEN Walk(e, e.k, 0) >= L /\ L % e.q = 0 ELSE L <= 100*e.a
Scaled == {[t |-> t, a |-> 2*((L \div a) + 1)] : t \in {"tuple", "const"}, a \in {1, 3, 7, 20, 50}}
Fitting == {e \in Consts \cup Scaled \cup Chirps : Fits(e)}
Repole == /\ L > 0
          /\ \E d \in Pick(Fitting) : pol' = d /\ Log([op |-> "repole", d |-> d]) /\ UNCHANGED <<L, probs>>
Problem == /\ L > 0 /\ Len(probs) < 3 /\ probs' = Append(probs, pol) /\ Log([op |-> "problem"]) /\ UNCHANGED <<pol, L>>
(* the intervals on both sides of every change of sign *)
Edges(d) == LET q == Starts(d, L, 0) IN
   (UNION {{q[k], q[k] + P(d, q[k]) \div 2 - 1, q[k] + P(d, q[k]) \div 2, q[k] + P(d, q[k]) - 1} : k \in 1..Len(q)}) \cap 0..(L - 1)
Query == /\ probs # <<>> /\ SIM
  /\ \E i \in Pick(1..Len(probs)) : \E z \in Pick(0..(L - 1)) \cup Pick(Edges(probs[i])) :
     Log([op |-> "sign", i |-> i, z |-> z, s |-> Sign(probs[i], L, z)]) /\ UNCHANGED <<pol, L, probs>>
Smooth(d, z) == \A k \in 1..Len(Starts(d, L, 0)) : LET a == Starts(d, L, 0)[k] IN z # a /\ 2*(z - a) # P(d, a) /\ (a = Start(d, L, z - 1) => z - a # P(d, a))
QueryAt == /\ probs # <<>> /\ SIM
  /\ \E i \in Pick(1..Len(probs)) : \E z \in Pick({L} \cup {y + 1 : y \in Edges(probs[i])}) \cup {L} :
     /\ Smooth(probs[i], z)
     /\ Log([op |-> "at", i |-> i, z |-> z, s |-> Sign(probs[i], L, z - 1)]) /\ UNCHANGED <<pol, L, probs>>
Init == pol = <<>> /\ L = 0 /\ probs = <<>> /\ hist = <<>>
Next == Len(hist) < DEPTH /\ (New \/ Repole \/ Problem \/ Query \/ Query \/ Query \/ QueryAt)
Spec == Init /\ [][Next]_vars
Emit == (Len(hist) = DEPTH /\ probs # <<>> /\ L > 0) => PrintT(ToJson([h |-> hist]))
-------------------------------------------------------------------------------
(* Design level: the two signs have equal shares of every whole period, the   *)
(* crystal begins with plus, the sign changes exactly at the half periods.    *)
RECURSIVE SumSign(_, _, _, _)
SumSign(d, len, a, b) == IF a >= b THEN 0 ELSE Sign(d, len, a) + SumSign(d, len, a + 1, b)
Small(d) == d.t # "chirp" /\ L <= 40
Balanced == \A i \in 1..Len(probs) : LET d == probs[i] IN Small(d) =>
   LET q == Starts(d, L, 0) IN \A k \in 1..(Len(q) - 1) : SumSign(d, L, q[k], q[k+1]) = 0
BeginsPlus == \A i \in 1..Len(probs) : Sign(probs[i], L, 0) = 1
Exact == \A i \in 1..Len(probs) : LET d == probs[i] IN d.t = "chirp" =>
   LET q == Starts(d, L, 0) IN \A k \in 1..Len(q) : q[k] % d.q = 0 /\ P(d, q[k]) % 2 = 0 /\ P(d, q[k]) > 0
Fixed == [][\A i \in 1..Len(probs) : probs'[i] = probs[i]]_vars
===============================================================================
