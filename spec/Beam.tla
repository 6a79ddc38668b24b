--------------------------------- MODULE Beam ---------------------------------
(* Gaussian beams in exact rational arithmetic (C19).  A beam has a grid of   *)
(* frequencies f (integers: its wavelength is 1/f) and a focal area q (pi     *)
(* w0^2, per frequency); in a medium of index n its Rayleigh range is         *)
(* n q f (units with c = 1 ...), and at z from the focus                      *)
(*   area(z) = q (1 + (z/zR)^2)    R(z) = z + zR^2/z    psi = arg(zR + i z)   *)
(* The field-to-power factor squared is 1/(area n).  Two beams overlap by     *)
(*   4 k1 k2 z1 z2 / ((k1-k2)^2 z^2 + (k1 z2 + k2 z1)^2),  k = n f.           *)
(* Histories of beams that are made, refocused, matched to each other and     *)
(* queried in any order.                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS DEPTH, SIM, NB, FMAX
VARIABLES grids, media, bs, wgs, hist
vars == <<grids, media, bs, wgs, hist>>
Pick(S) == IF SIM THEN {RandomElement(S)} ELSE S
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN Abs(a) ELSE Gcd(b, a % b)
Q0(a, b) == LET g == Gcd(Abs(a), Abs(b)) s == IF b < 0 THEN -1 ELSE 1 IN IF a = 0 THEN <<0, 1>> ELSE <<s*(a \div g), s*(b \div g)>>
Q(c, d) == CHOOSE r \in {Q0(a, b) : a \in {c}, b \in {d}} : TRUE     \* arguments evaluated once
Mul0(x, y) == LET g == Gcd(Abs(x[1]), y[2]) h == Gcd(Abs(y[1]), x[2]) IN
   IF x[1] = 0 \/ y[1] = 0 THEN <<0, 1>> ELSE Q((x[1] \div g)*(y[1] \div h), (x[2] \div h)*(y[2] \div g))
Mul(u, w) == CHOOSE r \in {Mul0(x, y) : x \in {u}, y \in {w}} : TRUE
Inv0(x) == Q(x[2], x[1])
Inv(u) == CHOOSE r \in {Inv0(x) : x \in {u}} : TRUE
Add0(x, y) == LET g == Gcd(x[2], y[2]) IN Q(x[1]*(y[2] \div g) + y[1]*(x[2] \div g), x[2]*(y[2] \div g))
Add(u, w) == CHOOSE r \in {Add0(x, y) : x \in {u}, y \in {w}} : TRUE
I(n) == <<n, 1>>
Sq(u) == CHOOSE r \in {Mul0(x, x) : x \in {u}} : TRUE
One == <<1, 1>>
Bins == 1..NB
(* refractive index of a medium: a table over (axis, frequency), integers     *)
Index(m, ax, f) == I(m.a[ax] + (IF m.b[ax] THEN f % 2 ELSE 0))
F(g, j) == g.f + g.s*(j - 1 - NB \div 2)                        \* NB even: the central bin is NB/2 + 1
ZR(g, q, n, j) == Mul(Mul(n, q[j]), I(F(g, j)))
-------------------------------------------------------------------------------
Axes == {"none", "o", "e"}
Grids == {g \in [f : 3..FMAX, s : {1, 2}] : g.f - g.s*(NB \div 2) >= 1}
Media == [a : [Axes -> 1..3], b : [Axes -> BOOLEAN]]
Log(x) == hist' = Append(hist, x)
Areas == IF SIM THEN {Q(a, b) : a \in 1..4, b \in 1..2} ELSE {<<1, 1>>, <<3, 2>>}
Zs == {Q(a, b) : a \in -6..6, b \in {1, 2}}
New == /\ Len(bs) < 3
   /\ \E g \in Pick(1..Len(grids)), ax \in Pick(IF SIM THEN Axes ELSE {"o", "e"}), q \in Pick(Areas) :
      /\ bs' = Append(bs, [g |-> g, ax |-> ax, q |-> [j \in Bins |-> q]])
      /\ Log([op |-> "new", g |-> g, ax |-> ax, q |-> q]) /\ UNCHANGED <<grids, media, wgs>>
Refocus == \E i \in Pick(1..Len(bs)), q \in Pick(Areas) : 
      /\ bs' = [bs EXCEPT ![i].q = [j \in Bins |-> q]] /\ Log([op |-> "refocus", i |-> i, q |-> q]) /\ UNCHANGED <<grids, media, wgs>>
N(b, m, j) == Index(media[m], b.ax, F(grids[b.g], j))
MatchConfocal == \E i \in Pick(1..Len(bs)), k \in Pick(1..Len(bs)), m \in Pick(1..Len(media)) :
      LET b == bs[i] o == bs[k] IN
      /\ bs' = [bs EXCEPT ![i].q = [j \in Bins |-> Mul(ZR(grids[o.g], o.q, N(o, m, j), j), Inv(Mul(N(b, m, j), I(F(grids[b.g], j)))))]]
      /\ Log([op |-> "confocal", i |-> i, k |-> k, m |-> m]) /\ UNCHANGED <<grids, media, wgs>>
MatchCentral == \E i \in Pick(1..Len(bs)), q \in Pick(Areas), m \in Pick(1..Len(media)) :
      LET b == bs[i] c == NB \div 2 + 1 z == Mul(Mul(N(b, m, c), q), I(F(grids[b.g], c))) IN
      /\ bs' = [bs EXCEPT ![i].q = [j \in Bins |-> Mul(z, Inv(Mul(N(b, m, j), I(F(grids[b.g], j)))))]]
      /\ Log([op |-> "central", i |-> i, q |-> q, m |-> m]) /\ UNCHANGED <<grids, media, wgs>>
(* everything about a beam at z in a medium                                   *)
Facts(b, m, z) == [j \in Bins |-> LET n == N(b, m, j) zr == ZR(grids[b.g], b.q, n, j) IN
   [n |-> n, q |-> b.q[j], zr |-> zr, area |-> Mul(b.q[j], Add(One, Sq(Mul(z, Inv(zr))))),
    R |-> IF z[1] = 0 THEN <<1, 0>> ELSE Add(z, Mul(Sq(zr), Inv(z)))]]
Query == \E i \in Pick(1..Len(bs)), m \in Pick(1..Len(media)), z \in Pick(Zs) :
      \E v \in {Facts(bs[i], m, z)} : Log([op |-> "query", i |-> i, m |-> m, z |-> z, v |-> v]) /\ UNCHANGED <<grids, media, bs, wgs>>
(* the same as plain tables *)
Over(b, o, m, z) == [j \in Bins |-> LET k1 == Mul(N(b, m, j), I(F(grids[b.g], j))) k2 == Mul(N(o, m, j), I(F(grids[o.g], j)))
     z1 == ZR(grids[b.g], b.q, N(b, m, j), j) z2 == ZR(grids[o.g], o.q, N(o, m, j), j) IN
     [k1 |-> k1, k2 |-> k2, z1 |-> z1, z2 |-> z2]]
Overlap == \E i \in Pick(1..Len(bs)), k \in Pick(1..Len(bs)), m \in Pick(1..Len(media)), z \in Pick(Zs) :
      \E v \in {Over(bs[i], bs[k], m, z)} : Log([op |-> "overlap", i |-> i, k |-> k, m |-> m, z |-> z, v |-> v]) /\ UNCHANGED <<grids, media, bs, wgs>>
(* the focal area of beam i that overlaps best with beam k along a crystal     *)
(* (len: in tenths of a unit of length): asking does not refocus anything     *)
Optimal == \E i \in Pick(1..Len(bs)), k \in Pick(1..Len(bs)), m \in Pick(1..Len(media)), len \in Pick({1, 3, 10, 30, 100, 300}) :
      \E v \in {Over(bs[i], bs[k], m, One)} : Log([op |-> "optimal", i |-> i, k |-> k, m |-> m, len |-> len, v |-> v]) /\ UNCHANGED <<grids, media, bs, wgs>>
(* waveguides: one area for everything                                        *)
NewWg == Len(wgs) < 2 /\ \E g \in Pick(1..Len(grids)), ax \in Pick(Axes), q \in Pick(Areas) :
         wgs' = Append(wgs, [g |-> g, ax |-> ax, q |-> q]) /\ Log([op |-> "wg", g |-> g, ax |-> ax, q |-> q]) /\ UNCHANGED <<grids, media, bs>>
SetWg == \E i \in Pick(1..Len(wgs)), q \in Pick(Areas) : wgs' = [wgs EXCEPT ![i].q = q] /\ Log([op |-> "setwg", i |-> i, q |-> q]) /\ UNCHANGED <<grids, media, bs>>
QueryWg == \E i \in Pick(1..Len(wgs)), m \in Pick(1..Len(media)), z \in Pick(Zs) :
         Log([op |-> "querywg", i |-> i, m |-> m, z |-> z, v |-> [j \in Bins |-> [n |-> N(wgs[i], m, j), area |-> wgs[i].q]]]) /\ UNCHANGED <<grids, media, bs, wgs>>
(* an earlier question again, of any beam as it is now *)
Asked == {k \in 1..Len(hist) : hist[k].op \in {"query", "overlap"}}
Again == SIM /\ Asked # {} /\ \E k \in Pick(Asked) : \E q \in {hist[k]} : \E j \in Pick(1..Len(bs)), m \in Pick(1..Len(media)), how \in Pick(1..4) :
      \E i \in {IF how = 1 THEN j ELSE q.i}, d \in {IF how = 2 THEN m ELSE q.m} :
      \E v \in {IF q.op = "query" THEN Facts(bs[i], d, q.z) ELSE Over(bs[i], bs[q.k], d, q.z)} :
      Log([q EXCEPT !.i = i, !.m = d, !.v = v]) /\ UNCHANGED <<grids, media, bs, wgs>>
(* a run of the simulator draws its grids and media in a first step (TLC computes initial states only once) *)
Init == /\ IF SIM THEN grids = <<>> /\ media = <<>>
           ELSE /\ grids = <<[f |-> 3, s |-> 1], [f |-> 5, s |-> 2]>> /\ media = <<[a |-> [x \in Axes |-> IF x = "o" THEN 2 ELSE 1], b |-> [x \in Axes |-> x # "e"]]>>
        /\ bs = <<>> /\ wgs = <<>> /\ hist = <<>>
Draw == /\ grids = <<>> /\ \E a \in Pick(Grids), b \in Pick(Grids), m \in Pick(Media), k \in Pick(Media) : grids' = <<a, b>> /\ media' = <<m, k>>
        /\ UNCHANGED <<bs, wgs, hist>>
Next == Draw \/ (Len(hist) < DEPTH /\ grids # <<>> /\ (New \/ (bs # <<>> /\ (Refocus \/ MatchConfocal \/ MatchCentral \/ (SIM /\ (Query \/ Query \/ Overlap \/ Optimal \/ Again)))) \/ (SIM /\ (NewWg \/ (wgs # <<>> /\ (SetWg \/ QueryWg))))))
Spec == Init /\ [][Next]_vars
View == <<grids, media, bs, wgs, Len(hist)>>
Emit == Len(hist) = DEPTH => PrintT(ToJson([g |-> grids, m |-> media, h |-> hist]))
-------------------------------------------------------------------------------
(* Identities of the model                                                    *)
Last == hist[Len(hist)]
Matched == hist # <<>> => /\ Last.op = "confocal" => \A j \in Bins : ZR(grids[bs[Last.i].g], bs[Last.i].q, N(bs[Last.i], Last.m, j), j) = ZR(grids[bs[Last.k].g], bs[Last.k].q, N(bs[Last.k], Last.m, j), j) \/ Last.i = Last.k
                          /\ Last.op = "central" => LET b == bs[Last.i] z(j) == ZR(grids[b.g], b.q, N(b, Last.m, j), j) IN
                                /\ \A j \in Bins : z(j) = z(1)
                                /\ b.q[NB \div 2 + 1] = Last.q
Few == {<<1, 1>>, <<-1, 1>>, <<3, 2>>, <<0, 1>>}
Le(x, y) == x[1]*y[2] <= y[1]*x[2]
Geometry == \A i \in 1..Len(bs) : \A z \in Few : LET v == Facts(bs[i], 1, z) w == Facts(bs[i], 1, Mul(<<-1, 1>>, z)) IN \A j \in Bins :
   /\ v[j].area = w[j].area /\ Le(v[j].q, v[j].area)                        \* symmetric, smallest at the focus
   /\ z[1] # 0 => /\ v[j].R = Mul(<<-1, 1>>, w[j].R)
                  /\ Mul(v[j].R, z) = Add(Sq(z), Sq(v[j].zr))               \* R z = z^2 + zR^2
                  /\ Mul(v[j].area, Sq(v[j].zr)) = Mul(v[j].q, Mul(v[j].R, z))
(* the overlap of any two beams is at most one, one exactly for equal beams   *)
OverlapBound == \A i, k \in 1..Len(bs) : LET v == Over(bs[i], bs[k], 1, One) IN \A j \in Bins :
   LET x == Mul(v[j].k1, v[j].z2) y == Mul(v[j].k2, v[j].z1) num == Mul(<<4, 1>>, Mul(x, y)) den == Sq(Add(x, y)) IN
   /\ Le(num, den) /\ (num = den <=> x = y)
===============================================================================
