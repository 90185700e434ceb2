------------------------------ MODULE ReinitTrace ------------------------------
(* C04.  Each record is one reinitialisation (possibly one of several in a history): the sign of   *)
(* every node before and after, finiteness, and the rank of every node by |distance| afterwards.    *)
(* Sides and ranks are the abstraction of FMM's v and acc: SidesKept and FurtherThanSomeNeighbour.  *)
EXTENDS TraceBase
F == INSTANCE FMMOps WITH One <- 1
Init == TBInit
Next == (Advance /\ Trace[l + 1].ev = "reinit") \/ TBDone
Spec == Init /\ [][Next]_<<l, hi, on>>
R == Rec
Finite == on => \A i \in 1..Len(R.fin) : R.fin[i]
SidesKept == on => R.after = R.before
InnerNode(i) == R.before[i] # 0 /\ \A j \in F!Nbrs(R.w, R.h, i) : R.before[i] * R.before[j] = 1
\* rank 0 is distance zero; equal ranks are exactly equal distances.
FurtherThanSomeNeighbour == on => \A i \in 1..Len(R.before) :
    InnerNode(i) => \E j \in F!Nbrs(R.w, R.h, i) : R.rank[j] < R.rank[i]
=============================================================================
