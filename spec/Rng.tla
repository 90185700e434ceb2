--------------------------------- MODULE Rng ---------------------------------
(* Several generators seeded and drawn from in any interleaving.  KeepOnSeed = TRUE is the design    *)
(* in which seeding does not drop the kept value; TLC refutes it.                                    *)
EXTENDS RngOps
CONSTANTS Objs, Seeds, MaxHist, KeepOnSeed
VARIABLES gen, hist, last
vars == <<gen, hist, last>>
Nothing == <<"none", 0, 0>>
Init == /\ gen \in [Objs -> {Fresh(s) : s \in Seeds}]
        /\ hist = [o \in Objs |-> <<>>]
        /\ last = [o \in Objs |-> Nothing]
SetSeed(o, s) == /\ gen' = [gen EXCEPT ![o] = [Fresh(s) EXCEPT !.kept = IF KeepOnSeed THEN gen[o].kept ELSE 0]]
                 /\ hist' = [hist EXCEPT ![o] = <<>>]
                 /\ last' = [last EXCEPT ![o] = Nothing]
DrawOne(o, k) == /\ Len(hist[o]) < MaxHist
                 /\ LET d == Draw(gen[o], k) IN
                    /\ gen' = [gen EXCEPT ![o] = d[1]]
                    /\ last' = [last EXCEPT ![o] = d[2]]
                 /\ hist' = [hist EXCEPT ![o] = Append(@, k)]
Copy(o, p) == /\ o # p
              /\ gen' = [gen EXCEPT ![o] = gen[p]]
              /\ hist' = [hist EXCEPT ![o] = hist[p]]
              /\ last' = [last EXCEPT ![o] = last[p]]
Next == \/ \E o \in Objs : (\E s \in Seeds : SetSeed(o, s)) \/ (\E k \in Kinds : DrawOne(o, k)) \/ (\E p \in Objs : Copy(o, p))
Spec == Init /\ [][Next]_vars

\* Everything drawn since a seed is a function of the seed and of the calls made since.
SeedFixesStream == \A o \in Objs : gen[o] = After(gen[o].seed, hist[o])
OutputFixed == \A o \in Objs : hist[o] # <<>> =>
    last[o] = Draw(After(gen[o].seed, SubSeq(hist[o], 1, Len(hist[o]) - 1)), hist[o][Len(hist[o])])[2]
\* A generator is not affected by what happens to another.
Isolated == [][\A o \in Objs : gen'[o] # gen[o] => (\A p \in Objs \ {o} : UNCHANGED <<gen[p], last[p]>>)]_vars
=============================================================================
