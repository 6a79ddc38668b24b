------------------------------- MODULE RKTrees --------------------------------
(* Order conditions of a Runge-Kutta step (property C09), as a state machine *)
(* that grows the set of rooted trees.  Tree i is a multiset of children     *)
(* (a count per earlier tree); the differential equation of the forest has   *)
(* one component per tree, y_i' = product of the children's components, and  *)
(* from y = 0 its exact solution is y_i(h) = h^order(i) / gamma(i).          *)
(* A method of order p reproduces every component of order <= p exactly.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS P            \* all trees with up to P nodes
VARIABLES trees        \* sequence of [ch |-> sequence of child indices, nondecreasing, o |-> order, g |-> gamma]
RECURSIVE SumO(_, _)
SumO(ts, ch) == IF ch = <<>> THEN 0 ELSE ts[Head(ch)].o + SumO(ts, Tail(ch))
RECURSIVE ProdG(_, _)
ProdG(ts, ch) == IF ch = <<>> THEN 1 ELSE ts[Head(ch)].g * ProdG(ts, Tail(ch))
(* all nondecreasing sequences of indices >= lo whose orders add up to s     *)
RECURSIVE Multisets(_, _, _)
Multisets(ts, lo, s) ==
  IF s = 0 THEN {<<>>}
  ELSE UNION { { <<i>> \o rest : rest \in Multisets(ts, i, s - ts[i].o) } : i \in {j \in lo..Len(ts) : ts[j].o <= s} }
RECURSIVE ToSeq(_)
ToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o ToSeq(S \ {x})
MaxO == IF trees = <<>> THEN 0 ELSE trees[Len(trees)].o
Init == trees = <<>>
Grow == /\ MaxO < P
        /\ \E o \in {MaxO + 1} : \E new \in {ToSeq(Multisets(trees, 1, o - 1))} :
             trees' = trees \o [i \in 1..Len(new) |-> [ch |-> new[i], o |-> o, g |-> o * ProdG(trees, new[i])]]
Spec == Init /\ [][Grow]_trees
Emit == (MaxO = P) => PrintT(ToJson([t |-> trees]))
(* the number of rooted trees with n nodes *)
Counts == \A o \in 1..MaxO : Cardinality({i \in DOMAIN trees : trees[i].o = o}) = <<1,1,2,4,9,20,48,115,286>>[o]
Orders == \A i \in DOMAIN trees : trees[i].o = 1 + SumO(trees, trees[i].ch)
=============================================================================
