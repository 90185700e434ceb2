-------------------------------- MODULE BandOps --------------------------------
(* The narrow band.  A distance is given by floor |d|: comparisons with integer thresholds are exact. *)

EXTENDS Integers, Sequences, FiniteSets
Below(a, t) == a < t                                        \* |d| < t
AtLeast(a, t) == a >= t                                       \* |d| >= t
OnEdge(w, h, i) == LET x == (i - 1) % (w + 1) y == (i - 1) \div (w + 1) IN x = 0 \/ y = 0 \/ x = w \/ y = h
BandOf(w, h, a, masked, bw, fixed) ==
    {i \in 1..((w + 1) * (h + 1)) : Below(a[i], bw) /\ masked[i] = 0 /\ ~(fixed /\ OnEdge(w, h, i))}
MinesOf(w, h, a, masked, bw, fixed) == {i \in BandOf(w, h, a, masked, bw, fixed) : AtLeast(a[i], bw - 1)}
\* Value of a node after an update of the band.
Advanced(w, h, band, phi, g, v, t, i) ==
    IF i \notin band THEN phi[i]
    ELSE LET new == phi[i] - t * g[i] * v[i] IN IF OnEdge(w, h, i) /\ new > 0 THEN 0 ELSE new
=============================================================================
