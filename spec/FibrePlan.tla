------------------------------- MODULE FibrePlan ------------------------------
(* Rewritings of a fibre propagation that must not change its result (C12),  *)
(* and solvers reused for one propagation after another (C13).  A plan       *)
(* propagates problem `prob` (a pulse and a uniform fibre of LEN units)      *)
(* piece by piece.  Every rewriting keeps Meaning(plan).                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS PROBS, LEN, SESS, STEPS, SIM
VARIABLES cur, left, sess
vars == <<cur, left, sess>>
Pick(S) == IF SIM THEN {RandomElement(S)} ELSE S
Piece(len, n, s) == [len |-> len, n |-> n, s |-> s, fast |-> TRUE, shift |-> TRUE, null |-> FALSE]
Canon(p) == [prob |-> p, pieces |-> <<Piece(LEN, 1, 0)>>, pow |-> 0, roll |-> 0, turn |-> 0]
Ins(s, i, x) == SubSeq(s, 1, i - 1) \o x \o SubSeq(s, i + 1, Len(s))
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE (IF Head(s).null THEN 0 ELSE Head(s).len) + Sum(Tail(s))
(* what a plan computes: the problem's solution after a length, rescaled *)
Meaning(pl) == [prob |-> pl.prob, len |-> Sum(pl.pieces)]
Divs(k) == {d \in 1..k : k % d = 0}
-------------------------------------------------------------------------------
Set(pl) == cur' = pl /\ left' = left - 1 /\ UNCHANGED sess
Split == \E i \in Pick(1..Len(cur.pieces)) : LET p == cur.pieces[i] IN
   /\ p.len > 1 /\ Len(cur.pieces) < 4
   /\ \E a \in Pick(1..(p.len - 1)) : Set([cur EXCEPT !.pieces = Ins(@, i, <<[p EXCEPT !.len = a, !.n = 1], [p EXCEPT !.len = p.len - a, !.n = 1]>>)])
Merge == \E i \in Pick(1..Len(cur.pieces)) : 
   /\ i < Len(cur.pieces) /\ cur.pieces[i].null = cur.pieces[i+1].null
   /\ Set([cur EXCEPT !.pieces = SubSeq(@, 1, i - 1) \o <<[@[i] EXCEPT !.len = @ + cur.pieces[i+1].len, !.n = 1]>> \o SubSeq(@, i + 2, Len(@))])
Outputs == \E i \in Pick(1..Len(cur.pieces)) : \E n \in Pick(Divs(cur.pieces[i].len)) : Set([cur EXCEPT !.pieces[i].n = n])
Solver == \E i \in Pick(1..Len(cur.pieces)), s \in Pick(0..2) : Set([cur EXCEPT !.pieces[i].s = s])       \* 0: a fresh one
Library == \E i \in Pick(1..Len(cur.pieces)) : Set([cur EXCEPT !.pieces[i].fast = ~@])
Layout == \E i \in Pick(1..Len(cur.pieces)) : Set([cur EXCEPT !.pieces[i].shift = ~@])
Power == \E k \in Pick(-6..6) : Set([cur EXCEPT !.pow = k])           \* power times 2^k, nonlinearity divided by it
Roll == \E m \in Pick(0..63) : Set([cur EXCEPT !.roll = m])           \* delay by m samples
Turn == \E m \in Pick(0..15) : Set([cur EXCEPT !.turn = m])           \* common phase of m sixteenths of a turn
Null == \E i \in Pick(1..Len(cur.pieces)) : \* a fibre that does nothing
   /\ Len(cur.pieces) < 4
   /\ Set([cur EXCEPT !.pieces = Ins(@, i, <<cur.pieces[i], [Piece(2, 2, 0) EXCEPT !.null = TRUE]>>)])
Commit == /\ sess' = Append(sess, cur)
          /\ \E p \in Pick(1..PROBS) : cur' = Canon(p)
          /\ left' = STEPS
Init == (\E p \in 1..PROBS : cur = Canon(p)) /\ left = STEPS /\ sess = <<>>
Next == /\ Len(sess) < SESS
        /\ (left > 0 /\ (Split \/ Merge \/ Outputs \/ Solver \/ Library \/ Layout \/ Power \/ Roll \/ Turn \/ Null)) \/ (left = 0 /\ Commit)
Spec == Init /\ [][Next]_vars
Emit == (Len(sess) = SESS) => PrintT(ToJson([h |-> sess]))
-------------------------------------------------------------------------------
TypeOK == \A i \in 1..Len(cur.pieces) : LET p == cur.pieces[i] IN p.len \in 1..(2*LEN) /\ p.len % p.n = 0
Whole == Meaning(cur).len = LEN
KeepsMeaning == [][sess' = sess => Meaning(cur') = Meaning(cur)]_vars
=============================================================================
