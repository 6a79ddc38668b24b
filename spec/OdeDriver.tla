------------------------------ MODULE OdeDriver ------------------------------
(* The integration driver (property C08), with the stepper as environment.   *)
(* Positions are integers (multiples of a unit chosen by the replay) counted *)
(* in the direction of integration from the start, so 0 is x1 and R is x2.   *)
(* The stepper may shorten the step it is asked for (did < try) and proposes *)
(* any next step; the driver must never pass R, must stop exactly at R, and  *)
(* must fail when the proposal is below the minimum or the steps run out.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS RS,      \* lengths of the interval
          HS,      \* step proposals
          MAXS,    \* step limits
          HMINS,   \* minimum steps (x2: odd numbers of half units, so never equal to a proposal)
          SIM
VARIABLES r, hmin, maxs, x, h, nok, nbad, status, steps
vars == <<r, hmin, maxs, x, h, nok, nbad, status, steps>>
Pick(S) == IF SIM /\ S # {} THEN {RandomElement(S)} ELSE S
Init == /\ r \in RS /\ hmin \in HMINS /\ maxs \in MAXS /\ h \in HS
        /\ x = 0 /\ nok = 0 /\ nbad = 0 /\ steps = <<>> /\ status = "start"
Try == IF x + h > r THEN r - x ELSE h
(* what the stepper can do with a try of size s *)
Dids(s) == {d \in 1..s : d = s \/ (s % 2 = 0 /\ d = s \div 2) \/ (s % 4 = 0 /\ d = s \div 4) \/ (s % 3 = 0 /\ d \in {s \div 3, 2*(s \div 3)})
                          \/ (s % 4 = 0 /\ d = 3*(s \div 4))}
Step == /\ status \in {"start", "run"}
        /\ IF Len(steps) = maxs THEN /\ status' = "toomany" /\ UNCHANGED <<r, hmin, maxs, x, h, nok, nbad, steps>>
           ELSE \E did \in Pick(Dids(Try)), next \in Pick(HS) :
             /\ x' = x + did /\ h' = next
             /\ nok' = nok + (IF did = Try THEN 1 ELSE 0) /\ nbad' = nbad + (IF did = Try THEN 0 ELSE 1)
             /\ steps' = Append(steps, [try |-> Try, did |-> did, next |-> next, x |-> x + did])
             /\ status' = IF x + did = r THEN "done" ELSE IF 2*next < hmin THEN "belowmin" ELSE "run"
             /\ UNCHANGED <<r, hmin, maxs>>
Next == Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Ended == status \in {"done", "toomany", "belowmin"}
Emit == Ended => PrintT(ToJson([r |-> r, hmin |-> hmin, maxs |-> maxs, h0 |-> IF steps = <<>> THEN h ELSE steps[1].try,
                               nok |-> nok, nbad |-> nbad, status |-> status, steps |-> steps]))
(* properties *)
NeverPass == x <= r
Counts == nok + nbad = Len(steps) /\ Len(steps) <= maxs
ExactEnd == status = "done" <=> (x = r)
Monotone == [][x' >= x /\ (Len(steps') > Len(steps) => x' > x)]_vars
Terminates == <>Ended
(* saved abscissae with n points asked for: 0, R/n, 2R/n, ..., R, as rationals over n *)
DenseGrid(n) == [i \in 1..(n+1) |-> (i-1) * r]       \* divided by n
=============================================================================
