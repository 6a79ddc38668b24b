------------------------------- MODULE Isolation -------------------------------
(* No object's state leaks into another (C20).                                *)
(* Every object of the library - pulses, fibres, crystals, beams, waveguides, *)
(* solvers, integrators, mixing problems, results, compressors - and every    *)
(* array or dictionary of the caller is an entry of objs.  An operation may   *)
(* write one object, read up to three and create some; Table lists them all.  *)
(* SPECIFIED: sl, the set of operations an object's observables may depend    *)
(* on: the operations that created and wrote it, and whatever the objects     *)
(* read at those moments depended on.  Nothing else may show.                 *)
(* IMPLEMENTED: an object keeps its state in cell; SHARED kinds keep it in    *)
(* one cell per kind (a class attribute), KEEPS kinds keep the cell of the    *)
(* array they were given (no copy), DIRTY operations write to what they read. *)
(* With all three empty Isolated holds; with any of them it must fail.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS DEPTH, SIM, MAXO, SHARED, KEEPS, DIRTY, OPSET
VARIABLES objs, store, hist
vars == <<objs, store, hist>>
Pick(S) == IF SIM THEN {RandomElement(S)} ELSE S
Op(w, r, c) == [w |-> w, r |-> r, c |-> c]
Full == [ arr |-> Op("", <<>>, <<"arr">>),          userarr |-> Op("arr", <<>>, <<>>),
  pdict |-> Op("", <<"pulse">>, <<"dict">>),         userdict |-> Op("dict", <<>>, <<>>),
  pulse |-> Op("", <<>>, <<"pulse">>),               pulsearr |-> Op("", <<"arr">>, <<"pulse">>),
  pulsedict |-> Op("", <<"dict">>, <<"pulse">>),     blank |-> Op("", <<>>, <<"pulse">>),
  clone |-> Op("", <<"pulse">>, <<"pulse">>),        derive |-> Op("", <<"pulse">>, <<"pulse">>),
  pset |-> Op("pulse", <<>>, <<>>),                  psetarr |-> Op("pulse", <<"arr">>, <<>>),
  pload |-> Op("pulse", <<"dict">>, <<>>),           pclone |-> Op("pulse", <<"pulse">>, <<>>),
  pcomp |-> Op("pulse", <<"comp">>, <<>>),           plook |-> Op("", <<"pulse">>, <<"obs">>),
  fiber |-> Op("", <<>>, <<"fiber">>),               fiberarr |-> Op("", <<"arr">>, <<"fiber">>),
  fiberdb |-> Op("", <<>>, <<"fiber">>),             fblank |-> Op("", <<>>, <<"fiber">>),
  fset |-> Op("fiber", <<>>, <<>>),                  fuse |-> Op("", <<"fiber", "pulse">>, <<"obs">>),
  fsetarr |-> Op("fiber", <<"arr">>, <<>>),          scribble |-> Op("obs", <<>>, <<>>),
  xtal |-> Op("", <<>>, <<"xtal">>),                 xset |-> Op("xtal", <<>>, <<>>),
  xcopy |-> Op("", <<"xtal">>, <<"xtal">>),          xuse |-> Op("", <<"xtal", "pulse">>, <<"obs">>),
  beam |-> Op("", <<"pulse">>, <<"beam">>),          bset |-> Op("beam", <<>>, <<>>),
  bmatch |-> Op("beam", <<"pulse", "beam", "xtal">>, <<>>), buse |-> Op("", <<"beam", "pulse", "xtal">>, <<"obs">>),
  wg |-> Op("", <<"pulse">>, <<"wg">>),              wset |-> Op("wg", <<>>, <<>>),
  ssfm |-> Op("", <<>>, <<"ssfm">>),                 sset |-> Op("ssfm", <<>>, <<>>),
  prop |-> Op("ssfm", <<"pulse", "fiber">>, <<"obs", "pulse">>), gain |-> Op("ssfm", <<"pulse", "fiber">>, <<"obs", "pulse">>),
  coh |-> Op("ssfm", <<"pulse", "fiber">>, <<"obs">>), comp |-> Op("", <<>>, <<"comp">>),
  ode |-> Op("", <<"arr">>, <<"ode">>),              odestep |-> Op("ode", <<>>, <<>>),
  odewhole |-> Op("", <<>>, <<"obs">>),              cuse |-> Op("", <<"comp">>, <<"obs">>),
  pumps |-> Op("", <<>>, <<"pump", "sgnl">>),        mset |-> Op("pump", <<"arr">>, <<>>),
  mset2 |-> Op("sgnl", <<"arr">>, <<>>),             dfg |-> Op("", <<"pump", "sgnl", "xtal">>, <<"dfg">>),
  dderiv |-> Op("", <<"dfg", "arr">>, <<"obs">>),    dproc |-> Op("", <<"dfg">>, <<"mres">>),
  mget |-> Op("", <<"mres">>, <<"obs">>),            poling |-> Op("", <<"xtal">>, <<"obs">>) ]
Names == IF OPSET = {} THEN DOMAIN Full ELSE OPSET
Table == [n \in Names |-> Full[n]]
Of(k) == {i \in 1..Len(objs) : objs[i].k = k}
Can(n) == LET o == Table[n] IN
  /\ o.w # "" => Of(o.w) # {}
  /\ \A j \in 1..Len(o.r) : Of(o.r[j]) # {}
  /\ Len(objs) + Len(o.c) <= MAXO
Arg(o, j) == IF j <= Len(o.r) THEN Of(o.r[j]) ELSE {0}
Val(i) == store[objs[i].cell]
(* the operation written by the user on his own data is the only way it changes *)
Do(n) == LET o == Table[n] t == Len(hist) + 1 IN
  \E w \in Pick(IF o.w = "" THEN {0} ELSE Of(o.w)), a \in Pick(Arg(o, 1)), b \in Pick(Arg(o, 2)), d \in Pick(Arg(o, 3)), v \in Pick(IF SIM THEN 1..9999 ELSE {1}) :
   LET rs == {x \in {a, b, d} : x > 0}
       inn == {x \in rs \cup {w} : x > 0}
       sl == UNION {objs[x].sl : x \in inn} \cup {t}
       val == UNION {Val(x) : x \in inn} \cup {t}
       cellof(j) == IF o.c[j] \in SHARED /\ Of(o.c[j]) # {} THEN objs[CHOOSE x \in Of(o.c[j]) : TRUE].cell
                    ELSE IF o.c[j] \in KEEPS /\ rs # {} THEN objs[CHOOSE x \in rs : TRUE].cell ELSE Len(store) + j
       new == [j \in 1..Len(o.c) |-> [k |-> o.c[j], cell |-> cellof(j), sl |-> sl]]
       hit == (IF w > 0 THEN {objs[w].cell} ELSE {}) \cup {cellof(j) : j \in 1..Len(o.c)} \cup (IF n \in DIRTY THEN {objs[x].cell : x \in rs} ELSE {})
   IN
   /\ objs' = [i \in 1..(Len(objs) + Len(o.c)) |-> IF i > Len(objs) THEN new[i - Len(objs)] ELSE IF i = w THEN [objs[i] EXCEPT !.sl = sl] ELSE objs[i]]
   /\ store' = [x \in 1..(Len(store) + Len(o.c)) |-> IF x \in hit THEN val ELSE IF x <= Len(store) THEN store[x] ELSE {}]
   /\ hist' = Append(hist, [n |-> n, w |-> w, r |-> SelectSeq(<<a, b, d>>, LAMBDA x : x > 0), c |-> [j \in 1..Len(o.c) |-> Len(objs) + j], v |-> v])
Init == objs = <<>> /\ store = <<>> /\ hist = <<>>
(* in simulation: half of the steps write something that exists *)
Writers == {n \in Names : Table[n].w # "" /\ Can(n)}
Makers == {n \in Names : Table[n].c # <<>> /\ Table[n].w = "" /\ Can(n)}
Next == /\ Len(hist) < DEPTH
        /\ IF SIM THEN \E coin \in Pick(1..5) :
                LET S == IF coin <= 2 /\ Writers # {} THEN Writers ELSE IF Makers # {} THEN Makers ELSE Writers IN S # {} /\ \E n \in Pick(S) : Do(n)
           ELSE \E n \in {m \in Names : Can(m)} : Do(n)
Spec == Init /\ [][Next]_vars
-------------------------------------------------------------------------------
Isolated == \A i \in 1..Len(objs) : Val(i) = objs[i].sl
Frame == [][LET h == hist'[Len(hist')] IN \A i \in 1..Len(objs) : i # h.w => store'[objs'[i].cell] = Val(i)]_vars
Closed == \A i \in 1..Len(objs) : \A t \in objs[i].sl : \* a slice can be run alone: what its operations use is made in it
   LET h == hist[t] IN \A x \in ({h.w} \cup {h.r[j] : j \in 1..Len(h.r)}) \ {0} : \E u \in objs[i].sl : u < t /\ \E j \in 1..Len(hist[u].c) : hist[u].c[j] = x
Stop == Len(hist) = DEPTH \/ (SIM /\ Writers = {} /\ Makers = {})
Emit == Stop => PrintT(ToJson([h |-> hist, sl |-> [i \in 1..Len(objs) |-> [k |-> objs[i].k, sl |-> objs[i].sl]]]))
View == <<objs, store>>
===============================================================================
