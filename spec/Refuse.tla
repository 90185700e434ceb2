-------------------------------- MODULE Refuse --------------------------------
(* A program that issues requests one after another.  An invalid one ends it, before it has any effect; *)
(* what was done before stays.  With Checked = FALSE requests are served without being looked at, which *)
(* TLC shows to break the containers (negative control).                                               *)
EXTENDS RefuseOps, TLC
CONSTANTS Checked, MaxSteps, Sides, Bands, Moves
VARIABLES st, run, steps, last
vars == <<st, run, steps, last>>
Ls(f, w, h, b, m, n) == [k |-> "levelset", form |-> f, w |-> w, h |-> h, band |-> b, move |-> m, nan |-> n]
Requests ==
    {Ls(f, w, h, b, m, n) : f \in {1, 2}, w \in Sides, h \in Sides, b \in Bands, m \in Moves, n \in BOOLEAN}
    \cup {[k |-> "field", pos |-> p, neg |-> n, zero |-> z] : p \in BOOLEAN, n \in BOOLEAN, z \in BOOLEAN}
    \cup {[k |-> "heap", cap |-> c] : c \in 0..2} \cup {[k |-> x] : x \in {"reinit", "push", "pop", "peek"}}
    \cup {[k |-> "save", place |-> p] : p \in {"file", "none"}}
    \cup {[k |-> "load", place |-> p, form |-> f, want |-> "txt", records |-> r, nodes |-> 9, ragged |-> g, pos |-> TRUE, neg |-> FALSE, zero |-> FALSE] :
              p \in {"file", "none"}, f \in {"txt", "txtxy"}, r \in {0, 8, 9, 10}, g \in {0, 1}}
    \cup {[k |-> "optimiser", move |-> m, nan |-> n, points |-> p, constraints |-> c, distances |-> d] :
              m \in Moves, n \in BOOLEAN, p \in 0..1, c \in 0..2, d \in 0..2}
Init == st = Fresh /\ run = TRUE /\ steps = 0 /\ last = [k |-> "none"]
Serve == \E q \in Requests : run /\ steps < MaxSteps /\ (Valid(st, q) \/ ~Checked) /\ st' = After(st, q) /\ last' = q /\ steps' = steps + 1 /\ UNCHANGED run
Refuse == \E q \in Requests : run /\ steps < MaxSteps /\ Checked /\ ~Valid(st, q) /\ run' = FALSE /\ last' = q /\ UNCHANGED <<st, steps>>
Stop == (~run \/ steps = MaxSteps) /\ UNCHANGED vars
Next == Serve \/ Refuse \/ Stop
Spec == Init /\ [][Next]_vars
HeapWithinCapacity == st.len >= 0 /\ st.len <= st.cap
RefusedOnlyInvalid == ~run => ~Valid(st, last)
ServedOnlyValid == [][(run' /\ steps' # steps) => Valid(st, last')]_vars
RefusalChangesNothing == [][~run' => UNCHANGED st]_vars
RefusalIsFinal == [][run \/ UNCHANGED vars]_vars
\* One step of a list of requests agrees with the state machine.
ServedAgrees == steps < MaxSteps /\ run => \A q \in Requests : Served(st, <<q>>, 1) = (IF Valid(st, q) THEN 1 ELSE 0)
=============================================================================
