--------------------------------- MODULE Poly ---------------------------------
(* Exact integration of polynomial right-hand sides (property C09): the      *)
(* state is a position and the steps taken; the increment over a step is the *)
(* definite integral, a list of fractions <<numerator, denominator>> to add. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS DEPTH
VARIABLES x, p, x0, steps
vars == <<x, p, x0, steps>>
RECURSIVE Pow(_, _)
Pow(b, k) == IF k = 0 THEN 1 ELSE b * Pow(b, k-1)
(* integral of sum c_j t^j from a/q to b/q *)
Integral(c, a, b, q) == [j \in 1..Len(c) |-> <<c[j] * (Pow(b, j) - Pow(a, j)), j * Pow(q, j)>>]
Init == /\ steps = <<>> /\ x = -3 /\ x0 = x
        /\ p = <<>>
Next == /\ Len(steps) < DEPTH
        /\ IF Len(steps) = 0 THEN
              \E q \in {TLCEval([i \in 1..3 |-> LET d == IF i = 1 THEN 7 ELSE RandomElement(0..7) IN
                  TLCEval([deg |-> d, c |-> TLCEval([j \in 1..8 |-> IF j > d+1 THEN 0 ELSE IF j = d+1 THEN RandomElement({1,2,-3}) ELSE RandomElement(-3..3)])])])} :
                 p' = q
           ELSE p' = p
        /\ \E h \in {RandomElement(1..2)} :
             /\ x' = x + h /\ UNCHANGED x0
             /\ steps' = Append(steps, [h |-> h, inc |-> [i \in 1..3 |-> Integral(p'[i].c, x, x+h, 1)],
                  dense |-> [m \in 1..5 |-> LET t == <<m-1, 4>> IN
                     [t |-> t, inc |-> [i \in 1..3 |-> Integral(p'[i].c, 4*x, 4*x + h*(m-1), 4)]]]])
Spec == Init /\ [][Next]_vars
Emit == (Len(steps) = DEPTH) => PrintT(ToJson([x0 |-> x0, p |-> p, steps |-> steps]))
(* the integral over a step is the sum over its quarters, term by term: dense at t = 0 is zero *)
FundamentalTheorem == \A s \in DOMAIN steps : \A i \in 1..3 : \A j \in DOMAIN steps[s].dense[1].inc[i] :
    steps[s].dense[1].inc[i][j][1] = 0
=============================================================================
