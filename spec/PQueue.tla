-------------------------------- MODULE PQueue --------------------------------
(* The abstract priority queue a heap of capacity `cap` stands for.  Entries are identified by    *)
(* the handle that push returned (handles count pushes); an entry carries the address it was      *)
(* pushed with and its current value.                                                             *)
EXTENDS Integers, FiniteSets
VARIABLES q,       \* handle -> [a : address, v : value], entries pushed and not yet popped
          pushes   \* number of pushes so far = next handle
pqvars == <<q, pushes>>

Size == Cardinality(DOMAIN q)
Smallest(h) == h \in DOMAIN q /\ \A g \in DOMAIN q : q[h].v <= q[g].v

PQInit == q = [h \in {} |-> [a |-> 0, v |-> 0]] /\ pushes = 0
Push(cap, a, v) == /\ Size < cap
                   /\ q' = [h \in DOMAIN q \cup {pushes} |-> IF h = pushes THEN [a |-> a, v |-> v] ELSE q[h]]
                   /\ pushes' = pushes + 1
Set(h, v) == h \in DOMAIN q /\ q' = [q EXCEPT ![h].v = v] /\ UNCHANGED pushes
Pop(h) == Smallest(h) /\ q' = [g \in DOMAIN q \ {h} |-> q[g]] /\ UNCHANGED pushes
=============================================================================
