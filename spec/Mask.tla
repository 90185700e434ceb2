---------------------------------- MODULE Mask ----------------------------------
(* Design of masking (C14): nodes carry a side; masks only grow, masked nodes are void; updates move  *)
(* only band nodes, which are never masked; reinitialisation keeps sides.                             *)
EXTENDS Integers, FiniteSets
CONSTANT Nodes
VARIABLES side, masked, band
vars == <<side, masked, band>>
Init == side \in [Nodes -> {-1, 1}] /\ masked = {} /\ band \in SUBSET Nodes
Rebuild == band' \in SUBSET (Nodes \ masked')
DoMask == \E S \in SUBSET Nodes : masked' = masked \cup S /\ side' = [n \in Nodes |-> IF n \in S THEN -1 ELSE side[n]] /\ Rebuild
DoUpdate == \E s \in [band -> {-1, 1}] : side' = [n \in Nodes |-> IF n \in band THEN s[n] ELSE side[n]] /\ UNCHANGED <<masked, band>>
DoReinit == UNCHANGED <<side, masked>> /\ Rebuild
Next == DoMask \/ DoUpdate \/ DoReinit
Spec == Init /\ [][Next]_vars
MaskedVoid == \A n \in masked : side[n] = -1 /\ n \notin band
MaskGrows == [][masked \subseteq masked']_vars
=============================================================================
