------------------------------- MODULE HeapTrace -------------------------------
(* C03.  Histories of operations on real heaps: every logged call is an action of PQueue with the *)
(* logged arguments, and what the call returned is compared with the model.  Misuse is recorded   *)
(* as the outcome of a child process.                                                             *)
EXTENDS TraceBase
VARIABLES q, pushes, cap
PQ == INSTANCE PQueue
vars == <<l, hi, on, q, pushes, cap>>
Init == TBInit /\ PQ!PQInit /\ cap = 0
Ev(e) == l < hi /\ NextRec.ev = e

New == Ev("new") /\ Advance /\ cap' = NextRec.cap /\ q' = [h \in {} |-> [a |-> 0, v |-> 0]] /\ pushes' = 0
\* The handle is whatever the heap returned; it must not be in use.
PushOp == Ev("push") /\ Advance /\ UNCHANGED cap
          /\ PQ!Size < cap /\ NextRec.h \notin DOMAIN q
          /\ q' = [h \in DOMAIN q \cup {NextRec.h} |-> IF h = NextRec.h THEN [a |-> NextRec.a, v |-> NextRec.v] ELSE q[h]]
          /\ pushes' = pushes + 1
SetOp == Ev("set") /\ Advance /\ PQ!Set(NextRec.h, NextRec.v) /\ UNCHANGED cap
PopOp == Ev("pop") /\ Advance /\ UNCHANGED cap
         /\ \E h \in DOMAIN q : q[h].a = NextRec.a /\ q[h].v = NextRec.v /\ PQ!Pop(h)
PeekOp == Ev("peek") /\ Advance /\ UNCHANGED <<q, pushes, cap>>
          /\ \E h \in DOMAIN q : PQ!Smallest(h) /\ q[h].v = NextRec.v
MisuseOp == Ev("misuse") /\ Advance /\ UNCHANGED <<q, pushes, cap>>
BulkOp == Ev("bulk") /\ Advance /\ UNCHANGED <<q, pushes, cap>>
Next == New \/ PushOp \/ SetOp \/ PopOp \/ PeekOp \/ BulkOp \/ MisuseOp \/ (TBDone /\ UNCHANGED <<q, pushes, cap>>)
Spec == Init /\ [][Next]_vars

SizeRight == on /\ Rec.ev \notin {"misuse", "bulk"} => Rec.size = PQ!Size /\ Rec.empty = (PQ!Size = 0)
\* Every history ends with the heap being drained: nothing may be left in the model.
DrainComplete == on /\ Rec.ev = "pop" /\ Rec.last => PQ!Size = 0
(* A large heap (one record): n entries with the values `first` are pushed, `popped` of them popped, the others *)
(* get the values `second`, and all are popped.  Both lists of pops are non-decreasing, an entry has the value    *)
(* it had at that time, every entry comes once, and nothing left was smaller than what the first list ended with. *)
Bulk(r) ==
    LET k == r.popped  n == r.n
        early == {r.popA[i] : i \in 1..k}
    IN /\ r.odd = 0 /\ r.size = 0 /\ r.empty /\ r.left = n - k
       /\ Len(r.popA) = n /\ Len(r.popV) = n /\ Range(r.popA) = 1..n
       /\ \A i \in 1..n : r.popV[i] = (IF i <= k THEN r.first[r.popA[i]] ELSE r.second[r.popA[i]])
       /\ \A i \in 1..(n - 1) : i # k => r.popV[i] <= r.popV[i + 1]
       /\ k > 0 => \A a \in (1..n) \ early : r.first[a] >= r.popV[k]
BulkRight == on /\ Rec.ev = "bulk" => Bulk(Rec)
Refused == on /\ Rec.ev = "misuse" => Rec.refused
=============================================================================
