------------------------------- MODULE Archive -------------------------------
(* Mixing runs kept in a file (C28).  A file maps parameter names to sequences *)
(* of runs; a run is a value, the name of the problem it came from, and a      *)
(* number of saved positions, each with its own fields (id).  A writer session *)
(* starts its parameter anew and leaves the others alone; runs are numbered in *)
(* the order written; readers (any number at once, none while writing) see     *)
(* the file as it is, each with its own cursor.                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS FILES, PARAMS, PROBS, SAVES, VALUES, MAXRUNS, DEPTH, READERS, SIM
VARIABLES store, writer, readers, next, h
vars == <<store, writer, readers, next, h>>
View == <<store, writer, readers>>
Pick(S) == IF SIM /\ S # {} THEN {RandomElement(S)} ELSE S
None == [f |-> 0, p |-> ""]
Log(x) == h' = Append(h, x)
Init == /\ store = [f \in FILES |-> <<>>]      \* function from names to sequences of runs, empty at first
        /\ writer = None /\ readers = <<>> /\ next = 1 /\ h = <<>>
Has(f) == DOMAIN store[f]
Runs(f, p) == store[f][p]
With(fn, k, v) == [x \in DOMAIN fn \cup {k} |-> IF x = k THEN v ELSE fn[x]]
Open == {i \in 1..Len(readers) : readers[i].open}
Busy(f) == writer.f = f
Reading(f) == \E i \in Open : readers[i].f = f
-------------------------------------------------------------------------------
StartWrite == \E f \in Pick({x \in FILES : ~Reading(x)}) : \E p \in Pick(PARAMS) :
   /\ writer = None
   /\ store' = [store EXCEPT ![f] = With(@, p, <<>>)]
   /\ writer' = [f |-> f, p |-> p]
   /\ Log([op |-> "start", f |-> f, p |-> p, again |-> p \in Has(f)])
   /\ UNCHANGED <<readers, next>>
AddRun == \E b \in Pick(PROBS) : \E s \in Pick(SAVES) : \E v \in Pick(VALUES) :
   /\ writer # None /\ Len(Runs(writer.f, writer.p)) < MAXRUNS
   /\ store' = [store EXCEPT ![writer.f][writer.p] = Append(@, [id |-> next, prob |-> b, saves |-> s, val |-> v])]
   /\ next' = next + 1
   /\ Log([op |-> "add", id |-> next, prob |-> b, saves |-> s, val |-> v])
   /\ UNCHANGED <<writer, readers>>
EndWrite == /\ writer # None /\ writer' = None /\ Log([op |-> "end"]) /\ UNCHANGED <<store, readers, next>>
StartRead == \E f \in Pick({x \in FILES : ~Busy(x) /\ \E p \in Has(x) : Runs(x, p) # <<>>}) :
   \E p \in Pick({q \in Has(f) : Runs(f, q) # <<>>}) :
   /\ Cardinality(Open) < READERS /\ Len(readers) < 6
   /\ readers' = Append(readers, [f |-> f, p |-> p, cur |-> 0, open |-> TRUE])
   /\ Log([op |-> "read", f |-> f, p |-> p, n |-> Len(Runs(f, p))])
   /\ UNCHANGED <<store, writer, next>>
EndRead == \E i \in Pick(Open) : /\ readers' = [readers EXCEPT ![i].open = FALSE]
   /\ Log([op |-> "done", i |-> i]) /\ UNCHANGED <<store, writer, next>>
(* a run: one asked for by number, or (k = 0) the last *)
Of(i, k) == LET s == Runs(readers[i].f, readers[i].p) IN IF k = 0 THEN s[Len(s)] ELSE s[k]
N(i) == Len(Runs(readers[i].f, readers[i].p))
GetRun == \E i \in Pick(Open) : \E k \in Pick(0..N(i)) : \E z \in Pick(0..Of(i, k).saves) :    \* z = 0: the last position
   /\ Log([op |-> "run", i |-> i, k |-> k, z |-> z, id |-> Of(i, k).id, prob |-> Of(i, k).prob, pos |-> IF z = 0 THEN Of(i, k).saves ELSE z, saves |-> Of(i, k).saves])
   /\ UNCHANGED <<store, writer, readers, next>>
GetParam == \E i \in Pick(Open) : \E k \in Pick(0..N(i)) :
   /\ Log([op |-> "param", i |-> i, k |-> k, val |-> Of(i, k).val]) /\ UNCHANGED <<store, writer, readers, next>>
BadRun == \E i \in Pick(Open) : \E k \in Pick({-2, -1, 0, 1, 5}) :                               \* beyond the last, or before the first
   /\ Log([op |-> "bad", i |-> i, k |-> IF k < 0 THEN k ELSE N(i) + k]) /\ UNCHANGED <<store, writer, readers, next>>
NextRun == \E i \in Pick(Open) : \E z \in Pick({0, 1}) :
   LET r == readers[i] IN
   /\ IF r.cur < N(i)
      THEN /\ readers' = [readers EXCEPT ![i].cur = @ + 1]
           /\ Log([op |-> "next", i |-> i, z |-> z, id |-> Of(i, r.cur + 1).id, prob |-> Of(i, r.cur + 1).prob, pos |-> IF z = 0 THEN Of(i, r.cur + 1).saves ELSE 1, saves |-> Of(i, r.cur + 1).saves])
      ELSE /\ UNCHANGED readers /\ Log([op |-> "none", i |-> i])
   /\ UNCHANGED <<store, writer, next>>
(* in simulation, writers write on and readers are asked, so that files fill up *)
Act == IF SIM /\ writer # None
       THEN \E b \in Pick(1..12) : IF b = 1 THEN EndWrite ELSE IF b <= 9 /\ Len(Runs(writer.f, writer.p)) < MAXRUNS THEN AddRun
            ELSE IF Open # {} THEN (GetRun \/ NextRun) ELSE EndWrite
       ELSE IF SIM THEN (StartWrite \/ StartRead \/ EndRead \/ GetRun \/ GetRun \/ GetParam \/ BadRun \/ NextRun)
       ELSE (StartWrite \/ AddRun \/ EndWrite \/ StartRead \/ EndRead \/ GetRun \/ GetParam \/ BadRun \/ NextRun)
Next == Len(h) < DEPTH /\ Act
Spec == Init /\ [][Next]_vars
Emit == (Len(h) >= DEPTH) => PrintT(ToJson([h |-> h]))
-------------------------------------------------------------------------------
Distinct == \A f \in FILES : \A p \in Has(f) : \A a, b \in 1..Len(Runs(f, p)) : a < b => Runs(f, p)[a].id < Runs(f, p)[b].id
Exclusive == writer # None => ~Reading(writer.f)
Cursors == \A i \in Open : readers[i].p \in Has(readers[i].f) /\ readers[i].cur \in 0..N(i)
(* nothing is lost except by starting a parameter anew, and then only that parameter *)
Kept == [][\A f \in FILES : \A p \in Has(f) :
             /\ p \in DOMAIN store'[f]
             /\ \/ Len(store'[f][p]) >= Len(Runs(f, p)) /\ SubSeq(store'[f][p], 1, Len(Runs(f, p))) = Runs(f, p)
                \/ writer = None /\ writer'.f = f /\ writer'.p = p /\ store'[f][p] = <<>>]_vars
ReadOnly == [][(readers' # readers) => store' = store]_vars
===============================================================================
