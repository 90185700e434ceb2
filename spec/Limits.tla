-------------------------------- MODULE Limits --------------------------------
(* Design of the move limits (C13): every lattice point of the grid lines of a small mesh, every   *)
(* mask and several global limits; a move by the limit cannot leave the domain or pass a masked    *)
(* closest node.                                                                                   *)
EXTENDS LimitRule, TLC
CONSTANTS W, H, Steps, Caps
VARIABLES mask, pos, ml, neg, fixed, pc
vars == <<mask, pos, ml, neg, fixed, pc>>
n == (W + 1) * (H + 1)
g == [w |-> W, h |-> H, phi |-> [i \in 1..n |-> 0], bt |-> 1, on |-> mask, all |-> FALSE]
P == Micro \div Steps
OnLines == {p \in (0..(W * Steps)) \X (0..(H * Steps)) : p[1] % Steps = 0 \/ p[2] % Steps = 0}
Init == /\ mask \in [1..n -> {0, 1}] /\ ml \in Caps
        /\ \E p \in OnLines : pos = <<p[1] * P, p[2] * P>>
        /\ neg = 0 /\ fixed = FALSE /\ pc = "new"
r == [ml |-> ml, masked |-> mask]
Dist(p) == AbsV(pos[1] - p[1] * Micro) + AbsV(pos[2] - p[2] * Micro)
EdgeDist == MinOf(MinOf(pos[1], W * Micro - pos[1]), MinOf(pos[2], H * Micro - pos[2]))
\* The algorithm: start from the global limit, clip at the edge, then at the closest node.
Set == /\ pc = "new" /\ pc' = "set"
       /\ LET c == CHOOSE p \in NearestNodes(g, pos) : TRUE
              n1 == IF EdgeDist < ml THEN -EdgeDist ELSE -ml
              m == mask[NodeNo(g, c[1], c[2])] = 1
          IN /\ fixed' = (m /\ Dist(c) = 0)
             /\ neg' = IF m /\ Dist(c) > 0 /\ -Dist(c) > n1 THEN -Dist(c) ELSE n1
       /\ UNCHANGED <<mask, pos, ml>>
Next == Set \/ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Set1 == pc = "set"
RuleHolds == Set1 => LimitOK(r, g, pos, neg, fixed)
InsideGlobal == Set1 => neg \in (-ml)..0
StaysInDomain == Set1 => -neg <= EdgeDist
StaysOutOfMask == Set1 => \E p \in NearestNodes(g, pos) : mask[NodeNo(g, p[1], p[2])] = 1 => (fixed \/ -neg <= Dist(p))
OnEdgeCannotMoveOut == Set1 /\ EdgeDist = 0 => neg = 0
=============================================================================
