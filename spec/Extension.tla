------------------------------ MODULE Extension ------------------------------
(* Design of the velocity extension (C06): the march of FMM with a velocity carried outwards.        *)
(* Every accepted node holds a velocity within the range of the velocities it started from, and a     *)
(* uniform velocity stays uniform, for every sign pattern and acceptance order.                       *)
EXTENDS FMM, ExtOps
CONSTANT VelPatterns
VARIABLES vel, vmin, vmax
evars == <<vars, vel, vmin, vmax>>
Vel0(p, i) == CASE p = 1 -> 7000 [] p = 2 -> ((i * 37) % 11) * 1000 - 5000 [] p = 3 -> IF i % 2 = 0 THEN 10000 ELSE -10000
EInit == /\ Init
         /\ \E p \in VelPatterns : vel = [i \in N |-> IF acc[i] = 1 THEN Vel0(p, i) ELSE 0]
         /\ vmin = CHOOSE x \in {vel[i] : i \in {j \in N : acc[j] = 1}} : \A j \in N : acc[j] = 1 => x <= vel[j]
         /\ vmax = CHOOSE x \in {vel[i] : i \in {j \in N : acc[j] = 1}} : \A j \in N : acc[j] = 1 => x >= vel[j]
Weight(i, j) == AbsF(v[i] - v[j])
EAccept == /\ Accept
           /\ LET i == CHOOSE i \in N : acc[i] = 0 /\ acc'[i] # 0
                  X == Upwind(W, H, v, acc, i, 1, 0)
                  Y == Upwind(W, H, v, acc, i, 2, 0)
              IN \E new \in IF Y = {} THEN {vel[a] : a \in X} ELSE IF X = {} THEN {vel[b] : b \in Y}
                            ELSE {AverageOf(vel[a], Weight(i, a), vel[b], Weight(i, b)) : a \in X, b \in Y} :
                   vel' = [vel EXCEPT ![i] = new]
           /\ UNCHANGED <<vmin, vmax>>
ENext == EAccept \/ (trial = {} /\ UNCHANGED evars)
ESpec == EInit /\ [][ENext]_evars
InHull == \A i \in N : acc[i] > 0 => vmin <= vel[i] /\ vel[i] <= vmax
Uniform == vmin = vmax => \A i \in N : acc[i] > 0 => vel[i] = vmin
WeightsPositive == \A i \in trial : \E j \in Nbrs(W, H, i) : acc[j] > 0 /\ Weight(i, j) > 0
=============================================================================
