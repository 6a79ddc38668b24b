-------------------------------- MODULE Noise ---------------------------------
(* Noise on pulses and the coherence of noisy ensembles (C22).                *)
(* The random generator is a seed and the numbers drawn since (a sequence of  *)
(* draw sizes); a pulse is its base field and the noise added so far, each    *)
(* with the generator state it was drawn from.  Equal descriptions must give  *)
(* bit-equal fields, different draws must differ in every bin that is         *)
(* perturbed at all.  A coherence calculation is a fresh copy of the input    *)
(* per trial, noised from consecutive generator states, each propagated under *)
(* the options requested; its value is over all ordered pairs of distinct     *)
(* trials.                                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS DEPTH, SIM, NB, TMAX
VARIABLES ps, rng, fresh, calls, hist
vars == <<ps, rng, fresh, calls, hist>>
Pick(S) == IF SIM THEN {RandomElement(S)} ELSE S
Bins == 1..NB
Bases == 1..3                                     \* base field; bin b of base k has magnitude Mag(k, b)
Mag(k, b) == IF k = 1 THEN 1 + (b % 3) ELSE IF k = 2 THEN b % 2 ELSE (b*b) % 5
Kinds == {"sqrt_N_freq", "one_photon_freq"}
(* variance of the noise in bin b in units of (h nu dF)^(1 or 2):             *)
(* sqrt_N: as many photons as the bin holds, |A|^2/(h nu dF), times (h nu dF)^2 *)
(* one photon: (h nu dF)^2 whatever the field                                 *)
Power(kind) == IF kind = "sqrt_N_freq" THEN 1 ELSE 2
Var(kind, k, b) == IF kind = "sqrt_N_freq" THEN Mag(k, b)*Mag(k, b) ELSE 1
Draw(r, what) == [r EXCEPT !.d = Append(@, what)]
Log(x) == hist' = Append(hist, x)
New == Len(ps) < 4 /\ \E k \in Pick(Bases) : ps' = Append(ps, [base |-> k, ev |-> <<>>]) /\ Log([op |-> "new", k |-> k]) /\ UNCHANGED <<rng, fresh, calls>>
Vacuum == Len(ps) < 4 /\ ps' = Append(ps, [base |-> 0, ev |-> << <<"vacuum", rng>> >>]) /\ rng' = Draw(rng, "vacuum")
          /\ Log([op |-> "vacuum"]) /\ UNCHANGED <<fresh, calls>>
Clone == Len(ps) < 4 /\ \E i \in Pick(1..Len(ps)) : ps' = Append(ps, ps[i]) /\ Log([op |-> "clone", i |-> i]) /\ UNCHANGED <<rng, fresh, calls>>
SeedIt == \E s \in Pick(1..2) : rng' = [s |-> s, d |-> <<>>] /\ Log([op |-> "seed", s |-> s]) /\ UNCHANGED <<ps, fresh, calls>>
User == rng' = Draw(rng, "user") /\ Log([op |-> "user"]) /\ UNCHANGED <<ps, fresh, calls>>
AddNoise == \E i \in Pick(1..Len(ps)), k \in Pick(Kinds) :
         /\ ps' = [ps EXCEPT ![i].ev = Append(@, <<k, rng>>)] /\ rng' = Draw(rng, "noise")
         /\ Log([op |-> "noise", i |-> i, kind |-> k, default |-> FALSE, power |-> Power(k),
                 var |-> IF ps[i].base > 0 /\ ps[i].ev = <<>> THEN [b \in Bins |-> Var(k, ps[i].base, b)] ELSE <<>>]) /\ UNCHANGED <<fresh, calls>>
(* an unknown kind is refused; the pulse stays; the generator may have moved  *)
Bad == \E i \in Pick(1..Len(ps)) : rng' = [s |-> fresh, d |-> <<>>] /\ fresh' = fresh + 1 /\ Log([op |-> "bad", i |-> i]) /\ UNCHANGED <<ps, calls>>
-------------------------------------------------------------------------------
Opts == {o \in [n : 1..3, p : {"none", "low", "high"}, rel : BOOLEAN, f : {"plain", "gain", "zlin", "zdep", "spectrum"}] :
          o.f = "spectrum" => o.p # "none"}       \* a gain spectrum needs the output power
RECURSIVE After(_, _)
After(r, t) == IF t = 0 THEN r ELSE After(Draw(r, "noise"), t - 1)
Trials(i, r, t, k) == [j \in 1..t |-> [base |-> ps[i].base, ev |-> Append(ps[i].ev, <<k, After(r, j - 1)>>)]]
Pairs(t) == {<<a, b>> \in (1..t) \X (1..t) : a # b}
Coherence == SIM /\ \E i \in Pick(1..Len(ps)), t \in Pick(2..TMAX), k \in Pick(Kinds), o \in Pick(Opts), s \in Pick(0..2) :
   \E r \in {IF s = 0 THEN rng ELSE [s |-> s, d |-> <<>>]} :
     LET tr == Trials(i, r, t, k) IN
     /\ rng' = After(r, t)
     /\ calls' = Append(calls, [tr |-> tr, o |-> o])
     /\ Log([op |-> "coherence", i |-> i, trials |-> t, kind |-> k, o |-> o, seed |-> s, pairs |-> Cardinality(Pairs(t)),
             same |-> {j \in 1..Len(calls) : calls[j] = [tr |-> tr, o |-> o]}]) /\ UNCHANGED <<ps, fresh>>
Classes == [i \in 1..Len(ps) |-> CHOOSE j \in 1..Len(ps) : ps[j] = ps[i] /\ \A m \in 1..(j - 1) : ps[m] # ps[i]]
Look == ps # <<>> /\ Log([op |-> "look", cls |-> Classes]) /\ UNCHANGED <<ps, rng, fresh, calls>>
Init == ps = <<>> /\ rng = [s |-> 1, d |-> <<>>] /\ fresh = 100 /\ calls = <<>> /\ hist = <<>>
Next == Len(hist) < DEPTH /\ (New \/ Vacuum \/ SeedIt \/ User \/ (ps # <<>> /\ (Clone \/ AddNoise \/ (SIM /\ AddNoise) \/ (SIM /\ AddNoise) \/ Bad \/ Look \/ Coherence)))
Spec == Init /\ [][Next]_vars
View == <<ps, rng, calls, Len(hist)>>
Emit == Len(hist) = DEPTH => PrintT(ToJson([h |-> hist]))
-------------------------------------------------------------------------------
(* No two noise events on different pulses share a draw, except from equal    *)
(* generator states; reseeding is the only way to repeat one.                 *)
Reseeded == \E i \in 1..Len(hist) : hist[i].op \in {"seed", "clone", "coherence"}
NoRepeat == ~Reseeded => \A i, j \in 1..Len(ps) : i # j => \A a \in 1..Len(ps[i].ev), b \in 1..Len(ps[j].ev) : ps[i].ev[a][2] # ps[j].ev[b][2]
(* The ensemble value in exact arithmetic: unit phases 1, i, -1, -i; the mean *)
(* over ordered pairs of conj(a) b is (|sum|^2 - T)/(T (T - 1)), real, in      *)
(* [-1, 1], one exactly when all trials agree.                                *)
Ph == <<<<1, 0>>, <<0, 1>>, <<-1, 0>>, <<0, -1>>>>
RECURSIVE SumV(_, _)
SumV(S, f) == IF S = {} THEN <<0, 0>> ELSE LET x == CHOOSE x \in S : TRUE v == f[x] w == SumV(S \ {x}, f) IN <<v[1] + w[1], v[2] + w[2]>>
CM(a, b) == <<a[1]*b[1] + a[2]*b[2], a[1]*b[2] - a[2]*b[1]>>       \* conj(a) b
Ensembles == \A t \in 2..TMAX : \A u \in [1..t -> 1..4] :
   LET f == [x \in Pairs(t) |-> CM(Ph[u[x[1]]], Ph[u[x[2]]])]
       g == SumV(Pairs(t), f) s == SumV(1..t, [x \in 1..t |-> Ph[u[x]]]) n == s[1]*s[1] + s[2]*s[2] IN
   /\ g = <<n - t, 0>> /\ g[1] <= t*(t - 1) /\ -g[1] <= t*(t - 1)
   /\ (g[1] = t*(t - 1) <=> \A a \in 1..t : u[a] = u[1])
===============================================================================
