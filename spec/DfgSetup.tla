------------------------------- MODULE DfgSetup -------------------------------
(* Setting up a mixing problem and reading back its results (C18).            *)
(* Frequencies are integers in units of the bin spacing: the pump grid is     *)
(* P-h .. P+h-1, the signal grid S-h .. S+h-1; the idler is centred at P - S. *)
(* Grids must not overlap and must have equal lengths.  A problem works on    *)
(* copies; a results object is a table of fields per saved position, with one *)
(* pulse that shows the field last asked for.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS DEPTH, SIM, PMAX, HS
VARIABLES in, probs, res, shown, hist
vars == <<in, probs, res, shown, hist>>
Pick(S) == IF SIM THEN {RandomElement(S)} ELSE S
Log(x) == hist' = Append(hist, x)
Low(c, h) == c - h
High(c, h) == c + h - 1
Grid(c, h) == Low(c, h)..High(c, h)
Refused(x) == \/ Low(x.P, x.h) < High(x.S, x.g)            \* pump and signal
              \/ Low(x.S, x.g) < High(x.P - x.S, x.h)      \* signal and idler
              \/ x.h # x.g
(* inputs whose verdict is not a matter of rounding, with a proper idler      *)
Clear(x) == /\ Low(x.P, x.h) # High(x.S, x.g)
            /\ (Low(x.P, x.h) > High(x.S, x.g) => Low(x.S, x.g) # High(x.P - x.S, x.h) /\ Low(x.P - x.S, x.h) > 0)
(* signal and idler far apart, near each other, or on top of the pump         *)
Inputs == {x \in [P : 3..PMAX, S : 2..PMAX, h : HS, g : HS] : Clear(x)}
Put(x) == in' = x /\ Log([op |-> "in", x |-> x]) /\ UNCHANGED <<probs, res, shown>>
Give == IF ~SIM THEN \E x \in Inputs : Put(x)
        ELSE \E h \in Pick(HS), near \in Pick(1..4), odd \in Pick(1..8) : \E P \in Pick(8*h..PMAX) :
             \E S \in Pick(CASE near = 1 -> 1..PMAX [] near = 2 -> (P \div 2)..P [] near = 3 -> (P \div 2 - h)..(P \div 2 + 3*h) [] OTHER -> (P - 3*h)..(P + h)) :
             \E g \in Pick(IF odd = 1 THEN HS ELSE {h}) : \E x \in {[P |-> P, S |-> S, h |-> h, g |-> g]} : Clear(x) /\ Put(x)
Make == /\ in.P > 0 /\ Len(probs) < 3
        /\ IF Refused(in) THEN probs' = probs /\ Log([op |-> "make", ok |-> FALSE, idler |-> 0])
           ELSE probs' = Append(probs, in) /\ Log([op |-> "make", ok |-> TRUE, idler |-> in.P - in.S])
        /\ UNCHANGED <<in, res, shown>>
(* the caller changes the pulses and the crystal afterwards                   *)
Disturb == in.P > 0 /\ in' = [in EXCEPT !.P = 0] /\ Log([op |-> "disturb"]) /\ UNCHANGED <<probs, res, shown>>
Deriv == \E q \in Pick(1..Len(probs)) : Log([op |-> "deriv", q |-> q]) /\ UNCHANGED <<in, probs, res, shown>>
Solve == /\ Len(res) < 3
         /\ \E q \in Pick(1..Len(probs)), m \in Pick(1..4), extra \in Pick(0..2) :
            /\ res' = Append(res, [q |-> q, m |-> m, of |-> Len(res) + 1]) /\ shown' = Append(shown, <<"pump", 0>>)
            /\ Log([op |-> "solve", q |-> q, m |-> m, extra |-> extra]) /\ UNCHANGED <<in, probs>>
Again == /\ Len(res) < 4 \* the same solver output is processed once more
         /\ \E k \in Pick(1..Len(res)) : /\ res' = Append(res, res[k]) /\ shown' = Append(shown, <<"pump", 0>>)
                                         /\ Log([op |-> "again", k |-> k]) /\ UNCHANGED <<in, probs>>
Waves == {"pump", "sgnl", "idlr"}
Center(k, w) == LET x == probs[res[k].q] IN IF w = "pump" THEN x.P ELSE IF w = "sgnl" THEN x.S ELSE x.P - x.S
Get == \E k \in Pick(1..Len(res)), w \in Pick(Waves) : \E n \in Pick(1..res[k].m) :
         /\ shown' = [shown EXCEPT ![k] = <<w, n>>]
         /\ Log([op |-> "get", k |-> k, w |-> w, n |-> n, of |-> res[k].of, q |-> res[k].q, c |-> Center(k, w)]) /\ UNCHANGED <<in, probs, res>>
(* what the pulses of all results show now                                    *)
Look == Log([op |-> "look", shown |-> [k \in 1..Len(res) |-> [w |-> shown[k][1], n |-> shown[k][2], of |-> res[k].of, q |-> res[k].q, c |-> Center(k, shown[k][1])]]]) /\ UNCHANGED <<in, probs, res, shown>>
Scribble == \E k \in Pick(1..Len(res)) : shown' = [shown EXCEPT ![k] = <<"pump", 0>>] /\ Log([op |-> "scribble", k |-> k]) /\ UNCHANGED <<in, probs, res>>
Init == in = [P |-> 0, S |-> 0, h |-> 0, g |-> 0] /\ probs = <<>> /\ res = <<>> /\ shown = <<>> /\ hist = <<>>
Next == Len(hist) < DEPTH /\ (Give \/ Make \/ Make \/ Disturb \/ (probs # <<>> /\ (Deriv \/ Solve \/ Solve)) \/ (res # <<>> /\ (Again \/ Get \/ Get \/ Get \/ Look \/ Scribble)))
Spec == Init /\ [][Next]_vars
View == <<in, probs, res, shown, Len(hist)>>
Emit == (Len(hist) = DEPTH) => PrintT(ToJson([h |-> hist]))
-------------------------------------------------------------------------------
(* Accepted problems: the three grids are disjoint and every triple of bins   *)
(* that balances around the centres balances in absolute frequency            *)
Disjoint == \A q \in 1..Len(probs) : LET x == probs[q] IN
   /\ Grid(x.P, x.h) \cap Grid(x.S, x.h) = {} /\ Grid(x.S, x.h) \cap Grid(x.P - x.S, x.h) = {}
   /\ \A j \in Grid(x.P, x.h) : \A a \in Grid(x.S, x.h) : j > a
   /\ \A a \in Grid(x.S, x.h) : \A b \in Grid(x.P - x.S, x.h) : a > b /\ b > 0
Balanced == \A q \in 1..Len(probs) : LET x == probs[q] IN
   \A a \in Grid(0, x.h) : \A b \in Grid(0, x.h) : (x.P + (a + b)) = (x.S + a) + (x.P - x.S + b)
(* a refusal is never of a problem whose grids are disjoint and equal         *)
JustRefusal == in.P > 0 /\ Refused(in) /\ in.h = in.g =>
   (Grid(in.P, in.h) \cap Grid(in.S, in.h) # {} \/ in.S > in.P \/ Grid(in.S, in.h) \cap Grid(in.P - in.S, in.h) # {} \/ in.P - in.S > in.S)
Steady == [][/\ \A q \in 1..Len(probs) : probs'[q] = probs[q]
             /\ \A k \in 1..Len(res) : res'[k] = res[k]]_vars
===============================================================================
