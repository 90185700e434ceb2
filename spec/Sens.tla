--------------------------------- MODULE Sens ---------------------------------
(* The Ito correction as an algorithm: the points of a closed contour in turn are displaced one way   *)
(* and the other along their normals, the perimeter function is evaluated against the boundary, the   *)
(* point is put back.  Distances are city-block so that everything is an integer.  Restore and Bound   *)
(* (the callback works on a copy of the boundary made beforehand) are the two protections of the      *)
(* code; each alone keeps the corrections right, only Restore keeps the points where they were.       *)
EXTENDS SensOps, FiniteSets, TLC
CONSTANTS Size, Delta, Comp, Restore, Bound
Normals == {<<a - Comp, b - Comp>> : a, b \in 0..(2 * Comp)}
N == 4
Base == <<<<0, 0>>, <<Size, 0>>, <<Size, Size>>, <<0, Size>>>>
Nb(i) == {(i % N) + 1, ((i + N - 2) % N) + 1}
VARIABLES nrm, at, i, f1, sens, calls, pc
vars == <<nrm, at, i, f1, sens, calls, pc>>
Init == /\ nrm \in [1..N -> Normals] /\ at = Base /\ i = 1 /\ f1 = 0
        /\ sens = [k \in 1..N |-> 0] /\ calls = <<>> /\ pc = "plus"
RECURSIVE SumN(_, _, _)
SumN(S, p, q) == IF S = {} THEN 0 ELSE LET k == CHOOSE k \in S : TRUE IN AbsA(p[1] - q[k][1]) + AbsA(p[2] - q[k][2]) + SumN(S \ {k}, p, q)
\* Perimeter seen by the callback.
F(p) == SumN(Nb(i), p, IF Bound THEN Base ELSE at)
Plus == /\ pc = "plus" /\ i <= N
        /\ LET p == Displaced(at[i], nrm[i], Delta, 1) IN
           /\ f1' = F(p) /\ calls' = <<at[i], p>> /\ pc' = "minus"
        /\ UNCHANGED <<nrm, at, i, sens>>
Minus == /\ pc = "minus"
         /\ LET p == Displaced(at[i], nrm[i], Delta, -1) IN
            /\ sens' = [sens EXCEPT ![i] = f1 - F(p)]
            /\ at' = IF Restore THEN at ELSE [at EXCEPT ![i] = p]
            /\ calls' = Append(calls, p)
         /\ i' = i + 1 /\ pc' = "plus" /\ UNCHANGED <<nrm, f1>>
Done == i > N /\ UNCHANGED vars
Next == Plus \/ Minus \/ Done
Spec == Init /\ [][Next]_vars
Q(k, s) == LET p == Displaced(Base[k], nrm[k], Delta, s) IN SumN(Nb(k), p, Base)
\* Every correction is the one against the undisplaced boundary, whatever came before.
AgainstUndisplaced == \A k \in 1..N : k < i => sens[k] = Q(k, 1) - Q(k, -1)
PointsRestored == pc = "plus" => at = Base
=============================================================================
