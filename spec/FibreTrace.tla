----------------------------- MODULE FibreTrace -------------------------------
(* Recorded runs of the real step machine: the classes of the local errors   *)
(* that occurred are fed to FibreSteps, which says which steps must follow.  *)
EXTENDS FibreSteps
CONSTANT TRACES          \* sequence of [start |-> first half step, c |-> classes]
VARIABLE id
TInit == id \in 1..Len(TRACES) /\ start = TRACES[id].start /\ Init
TNext == /\ ~done /\ n < Len(TRACES[id].c) /\ UNCHANGED id
         /\ Trial(TRACES[id].c[n + 1])
TSpec == TInit /\ [][TNext]_<<vars, id>>
TEmit == (done \/ n = Len(TRACES[id].c) \/ ~ENABLED TNext) => PrintT(ToJson([id |-> id, done |-> done, h |-> log]))
=============================================================================
