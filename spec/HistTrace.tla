------------------------------- MODULE HistTrace -------------------------------
(* C22.  Histories of real objects.  Every record gives digests of all parts of three level sets and   *)
(* three boundaries after one step: an operation on level set i and boundary j with arguments arg and     *)
(* result out, a "set" (the driver put something into i and j), or a "transfer" (the field of level set   *)
(* j came to i through a file).  `memo` maps an operation and what it reads to what came out the first      *)
(* time.                                                                                              *)
EXTENDS TraceBase, HistOps
VARIABLES memo, ok
Pick(rec, P) == [p \in P |-> rec[p]]
\* Key of the step from record a to record b, and its outcome.
Key(a, b) == <<b.ev, b.arg, Pick(a.ls[b.i], Reads(b.ev).l), Pick(a.bd[b.j], Reads(b.ev).b)>>
Outcome(b) == <<b.out, Pick(b.ls[b.i], Writes(b.ev).l), Pick(b.bd[b.j], Writes(b.ev).b)>>
IsOp(b) == b.ev \in Operations
NoKeys == [x \in {} |-> 0]
Init == TBInit /\ memo = NoKeys /\ ok = TRUE
Step == LET a == Trace[l] b == Trace[l + 1] IN
    IF b.ev = "case" THEN memo' = NoKeys /\ ok' = TRUE
    ELSE IF IsOp(b)
    THEN LET k == Key(a, b) IN
         IF k \in DOMAIN memo THEN ok' = (memo[k] = Outcome(b)) /\ memo' = memo
         ELSE ok' = TRUE /\ memo' = (k :> Outcome(b)) @@ memo
    ELSE ok' = TRUE /\ memo' = memo
Next == \/ Advance /\ Step
        \/ TBDone /\ UNCHANGED <<memo, ok>>
Spec == Init /\ [][Next]_<<l, hi, on, memo, ok>>
Moved == on /\ Rec.ev # "case"
Prev == Trace[l - 1]
\* Equal inputs, equal results.
Functional == ok
\* Nothing else changes: not the other objects, ...
OthersUntouched == Moved =>
    /\ \A n \in 1..3 : n # Rec.i => Rec.ls[n] = Prev.ls[n]
    /\ \A n \in 1..3 : n # Rec.j \/ Rec.ev = "transfer" => Rec.bd[n] = Prev.bd[n]
\* ... and not the other parts of these.
OnlyItsParts == Moved /\ IsOp(Rec) =>
    /\ \A p \in LsParts \ (Writes(Rec.ev).l \cup Disturbs(Rec.ev).l) : Rec.ls[Rec.i][p] = Prev.ls[Rec.i][p]
    /\ \A p \in BdParts \ (Writes(Rec.ev).b \cup Disturbs(Rec.ev).b) : Rec.bd[Rec.j][p] = Prev.bd[Rec.j][p]
TransferExact == Moved /\ Rec.ev = "transfer" =>
    /\ Rec.ls[Rec.i]["F"] = Prev.ls[Rec.j]["F"]
    /\ \A p \in LsParts \ {"F"} : Rec.ls[Rec.i][p] = Prev.ls[Rec.i][p]
KnownStep == Moved => IsOp(Rec) \/ Rec.ev \in {"set", "transfer"}
=============================================================================
