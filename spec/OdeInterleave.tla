---------------------------- MODULE OdeInterleave -----------------------------
(* Several integrations in one process (property C10).  Each integration is  *)
(* an independent machine: what it has computed after k steps is a function  *)
(* of its own problem and k alone, whatever else happened in between.  The   *)
(* state of the composition is therefore just the step counts.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS PROBS, SLOTS, KMAX, DEPTH, SIM
VARIABLES st, hist      \* slot -> [prob, k], k = -1 no integration, -2 aborted
vars == <<st, hist>>
Pick(S) == IF SIM /\ S # {} THEN {RandomElement(S)} ELSE S
Slots == 1..SLOTS
None == [prob |-> 0, k |-> -1]
Live == {s \in Slots : st[s].k >= 0 /\ st[s].k < KMAX}
Log(op, s, arg, new) == /\ Len(hist) < DEPTH /\ st' = new
    /\ hist' = Append(hist, [op |-> op, s |-> s, a |-> arg, k |-> new[s].k, prob |-> new[s].prob])
Create == \E s \in Pick(Slots), p \in Pick(PROBS) : Log("create", s, <<p>>, [st EXCEPT ![s] = [prob |-> p, k |-> 0]])
StepS == \E s \in Pick(Live) : Log("step", s, <<>>, [st EXCEPT ![s].k = @ + 1])
(* during the c-th evaluation of its right-hand side, slot s runs problem p from start to end *)
Nested == \E s \in Pick(Live), p \in Pick(PROBS), c \in Pick({1, 5, 11}) : Log("nested", s, <<p, c>>, [st EXCEPT ![s].k = @ + 1])
(* ... or another live slot takes a step *)
Inside == \E s \in Pick(Live) : \E q \in Pick(Live \ {s}), c \in Pick({1, 5, 11}) :
             Log("inside", s, <<q, c>>, [st EXCEPT ![s].k = @ + 1, ![q].k = @ + 1])
Abort == \E s \in Pick(Live), c \in Pick({1, 4, 12}) : Log("abort", s, <<c>>, [st EXCEPT ![s].k = -2])
Whole == \E p \in Pick(PROBS), n \in Pick({-1, 0, 3}) : Len(hist) < DEPTH /\ st' = st /\
             hist' = Append(hist, [op |-> "whole", s |-> 0, a |-> <<p, n>>, k |-> 0, prob |-> p])
Init == st = [s \in Slots |-> None] /\ hist = <<>>
Next == \/ Create \/ StepS \/ Nested \/ Inside \/ Abort \/ Whole
Spec == Init /\ [][Next]_vars
Emit == (Len(hist) = DEPTH) => PrintT(ToJson([h |-> hist]))
OthersUntouched == [][\A s \in Slots : (s # hist'[Len(hist')].s /\ ~(hist'[Len(hist')].op = "inside" /\ hist'[Len(hist')].a[1] = s)) => st'[s] = st[s]]_vars
=============================================================================
