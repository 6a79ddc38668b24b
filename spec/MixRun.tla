-------------------------------- MODULE MixRun --------------------------------
(* Rewritings of a whole mixing run that must not change its result (C26).    *)
(* Positions are integers.  A plan sends problem `prob` through a crystal     *)
(* along a path of pieces (a to b, in either direction), with a poling design *)
(* given as a sequence of half periods.  Without dispersion ("flat") the      *)
(* fields depend on the path only through the integrated sign of the poling,  *)
(* so a design may be replaced by any other of equal integral (and unpoled is *)
(* the design of no sign changes); with dispersion they depend on design and  *)
(* position.  Every rewriting keeps Meaning(plan).                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS FLAT, DISP, POLED,   \* problems without and with dispersion; those of them that are poled
          LEN, HALVES, POWERS, TURNS, SESS, STEPS, SIM
VARIABLES cur, left, sess
vars == <<cur, left, sess>>
Pick(S) == IF SIM /\ S # {} THEN {RandomElement(S)} ELSE S
Odd == {z \in 1..LEN : z % 2 = 1}
(* integrated sign of a design at z; the last half period goes on for ever in an unpoled crystal *)
RECURSIVE Int0(_, _, _)
Int0(d, sg, z) == IF d = <<>> THEN sg*z ELSE IF z <= Head(d) THEN sg*z ELSE sg*Head(d) + Int0(Tail(d), -sg, z - Head(d))
Z(d, z) == Int0(d, 1, z)
RECURSIVE Total(_)
Total(d) == IF d = <<>> THEN 0 ELSE Head(d) + Total(Tail(d))
Twice(s) == [k \in 1..(2*Len(s)) |-> s[(k + 1) \div 2]]     \* both halves of a period are equal
Designs == UNION {{Twice(s) : s \in [1..k -> HALVES]} : k \in 1..3}
(* the last period begins inside the crystal and reaches past its end *)
Long(d) == d = <<>> \/ (Total(d) > LEN /\ Total(d) - 2*d[Len(d)] < LEN)
Piece(a, b) == [a |-> a, b |-> b, n |-> 1, fresh |-> TRUE]
Plain == [pow |-> 0, area |-> 0, tp |-> 0, ts |-> 0, roll |-> 0, flip |-> 0, long |-> 0]
Canon(p, e, d) == [prob |-> p, d |-> d, pieces |-> <<Piece(0, e)>>, w |-> Plain]
Ins(s, i, x) == SubSeq(s, 1, i - 1) \o x \o SubSeq(s, i + 1, Len(s))
End(pl) == pl.pieces[Len(pl.pieces)].b
Meaning(pl) == IF pl.prob \in FLAT THEN [prob |-> pl.prob, z |-> Z(pl.d, End(pl)), d |-> <<>>]
               ELSE [prob |-> pl.prob, z |-> End(pl), d |-> pl.d]
-------------------------------------------------------------------------------
Set(pl) == cur' = pl /\ left' = left - 1 /\ UNCHANGED sess
SetW(x) == Set([cur EXCEPT !.w = x])
Few == Len(cur.pieces) < 4
Split == \E i \in Pick(1..Len(cur.pieces)) : \E m \in Pick(Odd) : LET p == cur.pieces[i] IN
   /\ Few /\ ((p.a < m /\ m < p.b) \/ (p.b < m /\ m < p.a))
   /\ Set([cur EXCEPT !.pieces = Ins(@, i, <<[p EXCEPT !.b = m], [p EXCEPT !.a = m]>>)])
Detour == \E i \in Pick(1..Len(cur.pieces)) : \E m \in Pick(Odd) : LET p == cur.pieces[i] IN
   /\ Len(cur.pieces) < 3 /\ m # p.b
   /\ Set([cur EXCEPT !.pieces = Ins(@, i, <<p, Piece(p.b, m), Piece(m, p.b)>>)])
Outputs == \E i \in Pick(1..Len(cur.pieces)), n \in Pick({0, 1, 2, 3, 5, 8}) : Set([cur EXCEPT !.pieces[i].n = n])
Object == \E i \in Pick(1..Len(cur.pieces)) : Set([cur EXCEPT !.pieces[i].fresh = ~@])
(* another design and another end point with the same integral *)
Repole == /\ cur.prob \in FLAT
   /\ \E d \in Pick({<<>>} \cup {x \in Designs : Long(x)}) :
      \E e \in Pick({z \in Odd : Z(d, z) = Z(cur.d, End(cur))}) :
        Set([cur EXCEPT !.d = d, !.pieces = <<Piece(0, e)>>])
Power == \E k \in Pick(POWERS) : SetW([cur.w EXCEPT !.pow = k])       \* fields times 2^k, deff divided by it
Area == \E k \in Pick({k \in POWERS : k*k < 10}) : SetW([cur.w EXCEPT !.area = k])       \* area times 4^k, fields times 2^k
Turn == \E a \in Pick(TURNS), b \in Pick(TURNS) : SetW([cur.w EXCEPT !.tp = a, !.ts = b])
Roll == \E m \in Pick(TURNS) : SetW([cur.w EXCEPT !.roll = m])
Flip == \E k \in Pick(0..3) : SetW([cur.w EXCEPT !.flip = k])        \* deff and one of the waves change sign
Longer == \E k \in Pick(0..3) : cur.prob \in FLAT /\ cur.d = <<>> /\ SetW([cur.w EXCEPT !.long = k])
Start == \E p \in Pick(FLAT \cup DISP) : \E e \in Pick(Odd) :
   \E d \in Pick(IF p \in POLED THEN {x \in Designs : Long(x)} ELSE {<<>>}) : cur' = Canon(p, e, d)
Commit == sess' = Append(sess, cur) /\ Start /\ left' = STEPS
Init == /\ left = STEPS /\ sess = <<>>
        /\ cur \in {Canon(p, 1, IF p \in POLED THEN CHOOSE x \in Designs : Long(x) ELSE <<>>) : p \in FLAT \cup DISP}
Next == /\ Len(sess) < SESS
        /\ (left > 0 /\ (Split \/ Detour \/ Outputs \/ Object \/ Repole \/ Power \/ Area \/ Turn \/ Roll \/ Flip \/ Longer)) \/ (left = 0 /\ Commit)
Spec == Init /\ [][Next]_vars
ZZ(pl) == [i \in 1..Len(pl.pieces) |-> IF pl.prob \in FLAT THEN Z(pl.d, pl.pieces[i].b) ELSE pl.pieces[i].b]
Emit == (Len(sess) = SESS) => PrintT(ToJson([h |-> [k \in 1..SESS |-> [plan |-> sess[k], z |-> ZZ(sess[k])]]]))
-------------------------------------------------------------------------------
Connected == /\ cur.pieces[1].a = 0
             /\ \A i \in 2..Len(cur.pieces) : cur.pieces[i].a = cur.pieces[i-1].b
             /\ Long(cur.d)
Bounded == \A z \in 0..LEN : Z(cur.d, z) \in 0..z
KeepsMeaning == [][sess' = sess => Meaning(cur') = Meaning(cur)]_vars
===============================================================================
