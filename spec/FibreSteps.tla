----------------------------- MODULE FibreSteps -------------------------------
(* The adaptive step machine between two output positions of a fibre (C11).  *)
(* Lengths are integers; DIST is the length of a segment.  Every trial of    *)
(* half step dz is answered by the environment with a class of local error:  *)
(*   "H" > 2 tol : discard and halve, unless that falls below DZMIN          *)
(*   "K" in (tol, 2 tol]   : keep, next step smaller by 2^(1/5)               *)
(*   "S" in [tol/2, tol]   : keep, same step                                 *)
(*   "G" < tol/2           : keep, next step larger by 2^(1/5)               *)
(* An accepted trial covers 2 dz.  A half step is a pair <<b, k>> standing   *)
(* for b 2^(k/5), so that no rounding accumulates.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS DIST, DZMIN, STARTS, SEGS, DEPTH, SIM, MARGIN
VARIABLES start,   \* the step the solver was configured with
          dz, dist,
          ret, forced,   \* the step to go on with after a last step cut short
          pure,    \* only halvings so far: comparisons are exact
          seg, n, log, done, cover
vars == <<start, dz, dist, ret, forced, pure, seg, n, log, done, cover>>
Frac(x, p, q) == (x \div q)*p + ((x % q)*p) \div q
Fifth(x, j) == CASE j = 0 -> x [] j = 1 -> Frac(x, 24048, 20935) [] j = 2 -> Frac(x, 3754, 2845)
                 [] j = 3 -> Frac(x, 2845, 1877) [] j = 4 -> Frac(x, 35071, 20143)
Val(x) == LET s == x[2] \div 5 v == Fifth(x[1], x[2] % 5) IN IF s >= 0 THEN v*2^s ELSE v \div 2^(-s)
Up(x) == <<x[1], x[2] + 1>>
Down(x) == <<x[1], x[2] - 1>>
Half(x) == <<x[1], x[2] - 5>>
Margin == MARGIN + 2*n
Abs(x) == IF x < 0 THEN -x ELSE x
Init == /\ start \in STARTS
        /\ dz = (IF 2*start > DIST THEN <<DIST \div 2, 0>> ELSE <<start, 0>>)
        /\ dist = DIST /\ ret = <<0, 0>> /\ forced = FALSE /\ pure = TRUE
        /\ seg = 1 /\ n = 0 /\ log = <<>> /\ done = FALSE /\ cover = 0
(* is the decision a >= b clear in spite of rounding? *)
Clear(a, b, exact) == exact \/ Abs(a - b) > Margin
Trial(c) ==
  LET v == Val(dz)
      rejected == c = "H" /\ v \div 2 >= DZMIN IN
  /\ (c = "H" /\ DZMIN > 1 => Clear(v \div 2, DZMIN, pure))
  /\ n' = n + 1 /\ UNCHANGED start
  /\ IF rejected
     THEN /\ dz' = Half(dz)
          /\ log' = Append(log, [s |-> seg, dz |-> v, c |-> c, ok |-> FALSE])
          /\ UNCHANGED <<dist, ret, forced, pure, seg, done, cover>>
     ELSE LET down == Down(dz)
              nz == IF c = "K" /\ Val(down) >= DZMIN THEN down
                    ELSE IF c = "G" THEN Up(dz) ELSE dz
              nv == Val(nz)
              pu == pure /\ nz = dz
              left == IF Abs(dist - 2*v) <= 1 THEN 0 ELSE dist - 2*v
              cut == left > 0 /\ 2*nv > left
              rz == IF cut THEN nz ELSE ret
              fc == forced \/ cut IN
          /\ (c = "K" /\ DZMIN > 1 => Clear(Val(down), DZMIN, FALSE))
          /\ (left > 0 => Clear(2*nv, left, pu))
          /\ log' = Append(log, [s |-> seg, dz |-> v, c |-> c, ok |-> TRUE])
          /\ cover' = cover + (2*v)
          /\ IF left > 0
             THEN /\ dist' = left /\ dz' = (IF cut THEN <<left \div 2, 0>> ELSE nz)
                  /\ ret' = rz /\ forced' = fc /\ pure' = pu /\ UNCHANGED <<seg, done>>
             ELSE \* the segment is complete: go on to the next one
               LET go == IF fc THEN rz ELSE nz IN
               IF seg = SEGS THEN done' = TRUE /\ dist' = 0 /\ dz' = go /\ UNCHANGED <<ret, forced, pure, seg>>
               ELSE /\ Clear(2*Val(go), DIST, FALSE)
                    /\ seg' = seg + 1 /\ dist' = DIST /\ ret' = <<0, 0>> /\ forced' = FALSE /\ pure' = FALSE
                    /\ dz' = (IF 2*Val(go) > DIST THEN <<DIST \div 2, 0>> ELSE go) /\ done' = FALSE
(* random histories: the set is an expression of the state, or TLC would evaluate it once *)
Cls(k) == IF SIM THEN {RandomElement({<<1,"H">>, <<2,"H">>, <<1,"K">>, <<2,"K">>, <<1,"S">>, <<1,"G">>, <<2,"G">>, <<3,"G">>, <<k,"G">>})[2]}
              ELSE {"H", "K", "S", "G"}
Next == /\ ~done /\ n < DEPTH
        /\ Val(dz) > 8192
        /\ \E c \in Cls(n + 4) : Trial(c)
Spec == Init /\ [][Next]_vars
Emit == (log # <<>> /\ (done \/ n = DEPTH)) => PrintT(ToJson([start |-> start, done |-> done, min |-> DZMIN, dist |-> DIST, h |-> log]))
-------------------------------------------------------------------------------
Near(x, y) == Abs(x - y) <= 2*(n + 1)
NeverBeyond == dist >= 0 /\ (~done => 2*Val(dz) <= dist + 1)
Covered == Near(cover, seg*DIST - dist)
Complete == done => (dist = 0 /\ Near(cover, SEGS*DIST))
(* nothing is kept from a discarded trial; a kept one moves on by its length *)
Discarded == [][(log' # log /\ ~log'[Len(log')].ok) => (dist' = dist /\ Abs(2*Val(dz') - Val(dz)) <= 2 /\ Val(dz') >= DZMIN)]_vars
Kept == [][(log' # log /\ log'[Len(log')].ok) => cover' > cover]_vars
(* a trial above twice the tolerance is only kept at the minimum *)
OnlyAtMinimum == [][(log' # log /\ log'[Len(log')].ok /\ log'[Len(log')].c = "H") => Val(dz) \div 2 < DZMIN]_vars
=============================================================================
