----------------------------- MODULE StepControl ------------------------------
(* The step size controller (property C09).  A step size is a product        *)
(* h0 2^a 0.9^b 0.333^c 6^d 1.17^t and is represented by its exponents; the scaled  *)
(* error of a trial of size h in an environment of hardness e is             *)
(*     err = (h / h0)^8 * 2^(8 e) / 1.17^8                                            *)
(* so err^(-1/8) = 1.17 h0 2^-e / h exactly; the hardness a retry meets may be *)
(* lower (by one of DROPS).  Lengths are compared through   *)
(* their logarithms (units of 1e-6); err is never near 1 (NoTie).            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS ES, DROPS, DEPTH, SIM
VARIABLES h,        \* exponents of the next try
          rej,      \* the previous trial of this step was rejected
          e,        \* hardness during the current step
          hist, cur
vars == <<h, rej, e, hist, cur>>
Pick(S) == IF SIM THEN {RandomElement(S)} ELSE S
Lg(x) == 693147*x[1] - 105361*x[2] - 1099613*x[3] + 1791759*x[4] + 157004*x[5]     \* ln, times 1e6
Add(x, y) == [i \in 1..5 |-> x[i] + y[i]]
Neg(x) == [i \in 1..5 |-> -x[i]]
One == <<0,0,0,0,0>>
(* err^(-1/8), as a length ratio *)
Root == Add(Neg(h), <<-e,0,0,0,1>>)
Raw == Add(Root, <<0,1,0,0,0>>)                \* 0.9 err^(-1/8)
MinS == <<0,0,1,0,0>>
MaxS == <<0,0,0,1,0>>
Clip(s) == IF Lg(s) < Lg(MinS) THEN MinS ELSE IF Lg(s) > Lg(MaxS) THEN MaxS ELSE s
NoGrow(s) == IF Lg(s) > 0 THEN One ELSE s
Accept == Lg(Root) >= 0                       \* err <= 1
(* tries of the current step; when it is accepted the step is logged *)
Trial ==
  IF Accept THEN
     LET s == Clip(Raw) nx == Add(h, IF rej THEN NoGrow(s) ELSE s) IN
     /\ hist' = Append(hist, [tries |-> Append(cur, [h |-> h, e |-> e]), next |-> nx])
     /\ cur' = <<>> /\ rej' = FALSE /\ h' = nx /\ e' \in Pick(ES)
  ELSE
     /\ h' = Add(h, IF Lg(Raw) < Lg(MinS) THEN MinS ELSE Raw)
     /\ cur' = Append(cur, [h |-> h, e |-> e]) /\ rej' = TRUE /\ UNCHANGED hist
     /\ \E d \in Pick(DROPS) : e' = e - d
Init == h = One /\ rej = FALSE /\ e \in Pick(ES) /\ hist = <<>> /\ cur = <<>>
Next == Len(hist) < DEPTH /\ Trial
Spec == Init /\ [][Next]_vars
Emit == (Len(hist) = DEPTH) => PrintT(ToJson([h |-> hist]))
NoTie == Lg(Root) > 2000 \/ Lg(Root) < -2000
AcceptedOnlyIfSmall == [][hist' # hist => Lg(Root) >= 0]_vars
RejectShrinks == [][(cur' # cur /\ hist' = hist) => Lg(h') < Lg(h)]_vars
NoGrowthAfterReject == [][(hist' # hist /\ rej) => Lg(h') <= Lg(h)]_vars
Limits == [][hist' # hist => (Lg(h') - Lg(h) <= Lg(MaxS) /\ Lg(h') - Lg(h) >= Lg(MinS))]_vars
BoundedRejections == Len(cur) <= 24
-------------------------------------------------------------------------------
(* A step that no size satisfies: retried by the largest shrink until the step *)
(* no longer resolves the position x (ln |x| - ln h0 = hist[1]); then it fails. *)
CONSTANT XS
LgEps == 36043653
InitU == h = One /\ rej = FALSE /\ e = 1000 /\ cur = <<>> /\ \E lx \in XS : hist = <<lx>>
Unresolved == Lg(h) <= hist[1] - LgEps
NextU == /\ cur = <<>> \/ ~Unresolved        \* judged after a rejection only
         /\ h' = Add(h, MinS) /\ cur' = Append(cur, [h |-> h, e |-> e]) /\ rej' = TRUE /\ UNCHANGED <<e, hist>>
SpecU == InitU /\ [][NextU]_vars /\ WF_vars(NextU)
NoTieU == Lg(h) > hist[1] - LgEps + 2000 \/ Lg(h) < hist[1] - LgEps - 2000
EmitU == (cur # <<>> /\ Unresolved) => PrintT(ToJson([lx |-> hist[1], tries |-> Len(cur)]))
Fails == <>(cur # <<>> /\ Unresolved)
=============================================================================
