----------------------------- MODULE RefuseTrace -----------------------------
(* C23.  One record per program: its requests, how many were served, how it ended ("finished" with    *)
(* status 0 and no error message, "refused" with the failure status and one, anything else otherwise), *)
(* and for each request whether its output file is there afterwards.                                   *)
EXTENDS TraceBase, RefuseOps
Init == TBInit
Next == Advance \/ TBDone
Spec == Init /\ [][Next]_<<l, hi, on>>
Expected == Served(Fresh, Rec.reqs, 1)
ServesUpToFirstInvalid == on => Rec.served = Expected
RefusesInvalid == on /\ Expected < Len(Rec.reqs) => Rec.end = "refused"
FinishesValid == on /\ Expected = Len(Rec.reqs) => Rec.end = "finished"
OutputOfServedOnly == on => \A i \in 1..Len(Rec.reqs) : Rec.reqs[i].k = "save" => (Rec.out[i] <=> i <= Expected)
=============================================================================
