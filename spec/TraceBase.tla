------------------------------ MODULE TraceBase ------------------------------
(* Common part of every trace specification: an ndjson trace recorded from the real code is    *)
(* cut into chunks; each chunk is one behaviour, consumed one record per step (variable l is    *)
(* the last record consumed, `on` is FALSE until the first one).  A trace is accepted when      *)
(* every record of every chunk is consumed by an action and no invariant is violated.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace  == ndJsonDeserialize(IOEnv.TRACE)
Chunks == ndJsonDeserialize(IOEnv.CHUNKS)

VARIABLES l, hi, on

TBInit == \E k \in 1..Len(Chunks) : l = Chunks[k][1] - 1 /\ hi = Chunks[k][2] /\ on = FALSE
Advance == l < hi /\ l' = l + 1 /\ hi' = hi /\ on' = TRUE
TBDone == l = hi /\ UNCHANGED <<l, hi, on>>
Rec == Trace[l]           \* record just consumed (meaningful when `on`)
NextRec == Trace[l + 1]   \* record about to be consumed

Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Near(a, b, tol) == a - b <= tol /\ b - a <= tol
Range(s) == {s[i] : i \in DOMAIN s}
RECURSIVE SumTo(_, _)
SumTo(s, n) == IF n = 0 THEN 0 ELSE s[n] + SumTo(s, n - 1)
SumSeq(s) == SumTo(s, Len(s))
NoDup(s) == Cardinality(Range(s)) = Len(s)
=============================================================================
