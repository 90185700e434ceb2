------------------------------ MODULE LocateTrace ------------------------------
(* C02.  Each record is one point with the answers of the four look-ups of a real mesh; points   *)
(* are in units of 1e-7, answers are the coordinates of the returned element centre (times 2)    *)
(* and node.  Tolerance 1e-6 (ten units), the offset the code documents for rounding down.       *)
EXTENDS TraceBase
L == INSTANCE Locate WITH S <- 1, MaxW <- 1, MaxH <- 1, w <- 1, h <- 1, p <- <<0, 0>>, cell <- <<0, 0>>, node <- <<0, 0>>, pc <- ""
Unit == 10000000
Tol == 20
Init == TBInit
Next == (Advance /\ Trace[l + 1].ev = "point") \/ TBDone
Spec == Init /\ [][Next]_<<l, hi, on>>

OneCell(r, c) == \* c is the doubled centre
    /\ c[1] % 2 = 1 /\ c[2] % 2 = 1
    /\ L!Contains(Unit, r.w, r.h, <<c[1] \div 2, c[2] \div 2>>, r.p, Tol)
ElementContains == on => OneCell(Rec, Rec.elC) /\ OneCell(Rec, Rec.elXY)
NodeNearest == on => /\ L!Nearest(Unit, Rec.w, Rec.h, Rec.nodeC, Rec.p, Tol)
                     /\ L!Nearest(Unit, Rec.w, Rec.h, Rec.nodeXY, Rec.p, Tol)
FormsAgree == on => Rec.elC = Rec.elXY /\ Rec.nodeC = Rec.nodeXY
=============================================================================
