------------------------------ MODULE PhaseMatch ------------------------------
(* Phase-matching requests (C16).  Frequencies are integers.  A request names *)
(* pump, signal and idler, or leaves one of them out (0 here); the one left   *)
(* out is filled in so that photon energies balance and is reported where the *)
(* interface reports it.  Requests leave the crystal as it is.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS DEPTH, SIM, NV, FMAX
VARIABLES xs, last, hist
vars == <<xs, last, hist>>
Pick(S) == IF SIM THEN {RandomElement(S)} ELSE S
Kinds == {"ppln", "agse", "ags"}
Log(x) == hist' = Append(hist, x)
Fill(p, s, i) == IF p = 0 THEN <<s + i, s, i>> ELSE IF s = 0 THEN <<p, p - i, i>> ELSE IF i = 0 THEN <<p, s, p - s>> ELSE <<p, s, i>>
New == /\ Len(xs) < 2 /\ \E k \in Pick(Kinds), v \in Pick(1..NV), len \in Pick(0..2) :
          /\ xs' = Append(xs, [kind |-> k, v |-> v, sell |-> "Gayer_5pctMg", len |-> len])
          /\ Log([op |-> "new", kind |-> k, v |-> v, len |-> len]) /\ UNCHANGED last
SetParam == \E n \in Pick(1..Len(xs)), v \in Pick(1..NV) :
       xs' = [xs EXCEPT ![n].v = v] /\ Log([op |-> "param", n |-> n, v |-> v]) /\ UNCHANGED last
Load == \E n \in Pick(1..Len(xs)), v \in Pick(1..NV), sl \in Pick({"Gayer_5pctMg", "Deng"}) :
       xs[n].kind = "ppln" /\ xs' = [xs EXCEPT ![n].v = v, ![n].sell = sl] /\ Log([op |-> "load", n |-> n, v |-> v, sell |-> sl]) /\ UNCHANGED last
(* one left out, or all given: then they need not balance                     *)
Request == \E n \in Pick(1..Len(xs)), s \in Pick(3..FMAX), i \in Pick(3..FMAX), out \in Pick({"p", "s", "i", "none"}), off \in Pick({-1, 0, 1}) :
       LET x == xs[n] p == s + i + (IF out = "none" THEN off ELSE 0)
           given == <<IF out = "p" THEN 0 ELSE p, IF out = "s" THEN 0 ELSE s, IF out = "i" THEN 0 ELSE i>>
           f == Fill(given[1], given[2], given[3])
           new == IF out = "p" THEN f[1] ELSE IF out = "s" THEN f[2] ELSE IF out = "i" THEN f[3] ELSE 0 IN
       /\ s >= i                                  \* the signal is the shorter of the two
       /\ last' = [f |-> f, out |-> out]
       /\ Log([op |-> "match", n |-> n, given |-> given, f |-> f, new |-> new, x |-> x]) /\ UNCHANGED xs
(* a period computed for a signal leads back to that signal                   *)
Invert == \E n \in Pick(1..Len(xs)), s \in Pick(4..FMAX), i \in Pick(3..FMAX) :
       /\ xs[n].kind = "ppln" /\ s > i
       /\ Log([op |-> "invert", n |-> n, f |-> <<s + i, s, i>>, x |-> xs[n]]) /\ UNCHANGED <<xs, last>>
(* an earlier request again, of the same crystal in its present state or of another *)
Asked == {k \in 1..Len(hist) : hist[k].op \in {"match", "invert"}}
Again == SIM /\ Asked # {} /\ \E k \in Pick(Asked) : \E q \in {hist[k]} : \E n \in Pick({m \in 1..Len(xs) : (xs[m].kind = "ppln") = (xs[q.n].kind = "ppln")}), v \in Pick(1..NV), turn \in Pick(BOOLEAN) :
         \E x \in {IF turn THEN [xs[n] EXCEPT !.v = v] ELSE xs[n]} :
         /\ xs' = [xs EXCEPT ![n] = x] /\ UNCHANGED last
         /\ hist' = (IF turn THEN Append(hist, [op |-> "param", n |-> n, v |-> v]) ELSE hist) \o <<[q EXCEPT !.n = n, !.x = x]>>
Init == xs = <<>> /\ last = [f |-> <<2, 1, 1>>, out |-> "i"] /\ hist = <<>>
Next == Len(hist) < DEPTH /\ (New \/ (xs # <<>> /\ (SetParam \/ Load \/ Request \/ Request \/ Request \/ Invert \/ Again)))
Spec == Init /\ [][Next]_vars
Emit == (Len(hist) >= DEPTH) => PrintT(ToJson([h |-> hist]))
-------------------------------------------------------------------------------
EnergyBalance == last.out # "none" => last.f[1] = last.f[2] + last.f[3]
Positive == \A k \in 1..3 : last.f[k] > 0
(* which one is left out does not matter: the same triple comes back          *)
Indifferent == last.out # "none" => \A w \in {"p", "s", "i"} :
   Fill(IF w = "p" THEN 0 ELSE last.f[1], IF w = "s" THEN 0 ELSE last.f[2], IF w = "i" THEN 0 ELSE last.f[3]) = last.f
===============================================================================
