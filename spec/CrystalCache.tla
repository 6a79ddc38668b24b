----------------------------- MODULE CrystalCache -----------------------------
(* The index cache of a crystal (C15).  A crystal has a kind, a parameter    *)
(* (temperature or angle), a table of Sellmeier coefficients and, when       *)
(* caching is on, a cache from keys to remembered arrays.  Pulses have a     *)
(* grid that may be changed.  An answer is the abstract value of the index   *)
(* array; what the user must see is Index, whatever the cache does.          *)
(* KEY is the set of things a key distinguishes and COPY whether arrays are  *)
(* copied in and out: with all of them the cache is invisible; the models    *)
(* without one of them must fail, which shows the invariant can fail.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS DEPTH, SIM, NX, NP, NG, NV, KEY, COPYIN, COPYOUT, SHARED, LIVE
VARIABLES xs, ps, caches, rets, ans, hist
vars == <<xs, ps, caches, rets, ans, hist>>
Pick(S) == IF SIM THEN {RandomElement(S)} ELSE S
Kinds == {"ppln", "agse", "ags"}
Sells == {"Gayer_5pctMg", "Deng"}
Axes(k) == IF k = "ppln" THEN {"none"} ELSE {"none", "mix", "o", "e"}
Norm(k, a) == IF k = "ppln" THEN "none" ELSE IF a = "none" THEN "mix" ELSE a
(* the true index of crystal x for axis a on grid g *)
Index(x, a, g) == <<x.kind, IF Norm(x.kind, a) \in {"o", "e"} THEN 0 ELSE x.v, IF x.kind = "ppln" THEN x.sell ELSE "-", Norm(x.kind, a), g>>
Garbage == <<"written">>
Proj(x, a, g) == <<IF "param" \in KEY THEN x.v ELSE 0, IF "axis" \in KEY THEN a ELSE "-",
                   IF "grid" \in KEY THEN g ELSE 0, IF "sell" \in KEY THEN x.sell ELSE "-">>
Slot(i) == IF SHARED THEN 1 ELSE i
Lookup(i, k) == {e \in caches[Slot(i)] : e.k = k}
Log(x) == hist' = Append(hist, x)
New == /\ Len(xs) < NX
  /\ \E k \in Pick(Kinds), v \in Pick(1..NV), on \in Pick(BOOLEAN) :
     /\ xs' = Append(xs, [kind |-> k, v |-> v, sell |-> (IF k = "ppln" THEN "Gayer_5pctMg" ELSE "-"), on |-> on])
     /\ caches' = Append(caches, {})
     /\ Log([op |-> "new", kind |-> k, v |-> v, on |-> on]) /\ UNCHANGED <<ps, rets, ans>>
Clone == /\ Len(xs) < NX /\ xs # <<>>
  /\ \E i \in Pick(1..Len(xs)) : /\ xs' = Append(xs, xs[i]) /\ caches' = Append(caches, caches[Slot(i)])
                                 /\ Log([op |-> "clone", i |-> i]) /\ UNCHANGED <<ps, rets, ans>>
SetParam == \E i \in Pick(1..Len(xs)), v \in Pick(1..NV) :
     /\ xs' = [xs EXCEPT ![i].v = v] /\ Log([op |-> "param", i |-> i, v |-> v]) /\ UNCHANGED <<ps, caches, rets, ans>>
Load == \E i \in Pick(1..Len(xs)), v \in Pick(1..NV), s \in Pick(Sells) :
     /\ xs[i].kind = "ppln" /\ xs' = [xs EXCEPT ![i].v = v, ![i].sell = s]
     /\ Log([op |-> "load", i |-> i, v |-> v, sell |-> s]) /\ UNCHANGED <<ps, caches, rets, ans>>
Toggle == \E i \in Pick(1..Len(xs)), on \in Pick(BOOLEAN) :
     /\ xs' = [xs EXCEPT ![i].on = on] /\ Log([op |-> "caching", i |-> i, on |-> on]) /\ UNCHANGED <<ps, caches, rets, ans>>
Move == \E j \in Pick(1..NP), g \in Pick(1..NG) :
     /\ ps' = [ps EXCEPT ![j] = g] /\ Log([op |-> "move", j |-> j, g |-> g]) /\ UNCHANGED <<xs, caches, rets, ans>>
(* a returned array, kept by the caller: the value it holds, and the cache    *)
(* entry it is (only when arrays are not copied).                             *)
Query == \E i \in Pick(1..Len(xs)), j \in Pick(1..NP) : \E a \in Pick(Axes(xs[i].kind)) :
     LET x == xs[i] g == ps[j] k == Proj(x, a, g) hit == Lookup(i, k) truth == Index(x, a, g) IN
     LET v == IF x.on /\ hit # {} THEN (CHOOSE e \in hit : TRUE).v ELSE truth IN
     /\ ans' = [got |-> v, want |-> truth]
     /\ caches' = IF x.on /\ hit = {} THEN [caches EXCEPT ![Slot(i)] = @ \cup {[k |-> k, v |-> truth]}] ELSE caches
     /\ rets' = Append(rets, [v |-> v, alias |-> (x.on /\ ((hit = {} /\ ~COPYIN) \/ (hit # {} /\ ~COPYOUT))), s |-> Slot(i), k |-> k])
     /\ Log([op |-> "n", i |-> i, j |-> j, a |-> a, v |-> truth]) /\ UNCHANGED <<xs, ps>>
(* a question already put is put again, to any crystal with the same parameter and its cache on *)
Asked == {m \in 1..Len(hist) : hist[m].op = "n"}
Again == /\ SIM /\ Asked # {}
     /\ \E m \in Pick(Asked) : \E i \in Pick({k \in 1..Len(xs) : Norm(xs[k].kind, hist[m].a) \in Axes(xs[k].kind) /\ (Len(xs) = 1 \/ k # hist[m].i)} \cup {hist[m].i}) :
     \E x \in {[xs[i] EXCEPT !.v = xs[hist[m].i].v, !.on = TRUE]} :
     LET a == IF x.kind = "ppln" THEN "none" ELSE hist[m].a j == hist[m].j g == ps[j] k == Proj(x, a, g) hit == Lookup(i, k) truth == Index(x, a, g) IN
     LET v == IF hit # {} THEN (CHOOSE e \in hit : TRUE).v ELSE truth IN
     /\ xs' = [xs EXCEPT ![i] = x] /\ ans' = [got |-> v, want |-> truth]
     /\ caches' = IF hit = {} THEN [caches EXCEPT ![Slot(i)] = @ \cup {[k |-> k, v |-> truth]}] ELSE caches
     /\ rets' = Append(rets, [v |-> v, alias |-> ((hit = {} /\ ~COPYIN) \/ (hit # {} /\ ~COPYOUT)), s |-> Slot(i), k |-> k])
     /\ hist' = hist \o <<[op |-> "param", i |-> i, v |-> x.v], [op |-> "caching", i |-> i, on |-> TRUE], [op |-> "n", i |-> i, j |-> j, a |-> a, v |-> truth]>>
     /\ UNCHANGED ps
QueryK == \E i \in Pick(1..Len(xs)), j \in Pick(1..NP) : \E a \in Pick(Axes(xs[i].kind)) :
     /\ Log([op |-> "k", i |-> i, j |-> j, a |-> a, v |-> Index(xs[i], a, ps[j])]) /\ UNCHANGED <<xs, ps, caches, rets, ans>>
Bad == \E i \in Pick(1..Len(xs)), j \in Pick(1..NP) :
     /\ xs[i].kind # "ppln" /\ Log([op |-> "bad", i |-> i, j |-> j]) /\ UNCHANGED <<xs, ps, caches, rets, ans>>
Write == \E m \in Pick(1..Len(rets)) :
     /\ rets' = [rets EXCEPT ![m].v = Garbage]
     /\ caches' = IF rets[m].alias THEN [caches EXCEPT ![rets[m].s] = {IF e.k = rets[m].k THEN [e EXCEPT !.v = Garbage] ELSE e : e \in @}] ELSE caches
     /\ Log([op |-> "write", m |-> m]) /\ UNCHANGED <<xs, ps, ans>>
Init == xs = <<>> /\ ps = [j \in 1..NP |-> 1] /\ caches = <<>> /\ rets = <<>> /\ ans = [got |-> 0, want |-> 0] /\ hist = <<>>
Next == Len(hist) < DEPTH /\ (New \/ (xs # <<>> /\ (Clone \/ SetParam \/ Load \/ Toggle \/ Query \/ Query \/ QueryK \/ Bad \/ Again)) \/ Move \/ (rets # <<>> /\ Write))
Spec == Init /\ [][Next]_vars
-------------------------------------------------------------------------------
CacheInvisible == ans.got = ans.want
CacheSound == \A i \in 1..Len(xs) : (COPYIN /\ COPYOUT) => \A e \in caches[i] : e.v # Garbage
Held == \* what every kept array holds at the end
  [m \in 1..Len(rets) |-> rets[m].v]
Emit == (Len(hist) >= DEPTH /\ rets # <<>>) => PrintT(ToJson([h |-> hist, held |-> Held]))
(* the exhaustive comparison explores abstract states, not histories *)
View == <<xs, ps, caches, [m \in 1..Len(rets) |-> [a |-> rets[m].alias, s |-> rets[m].s, k |-> rets[m].k]], ans, IF LIVE THEN Len(hist) ELSE 0>>
=============================================================================
