------------------------------- MODULE ShapeTrace -------------------------------
(* C15.  Each record is one construction: the shape (eighths of a cell) and the resulting field      *)
(* (thousandths), or digests of constructions that must agree.                                       *)
EXTENDS TraceBase, ShapeOps
Kinds == {"holes", "polygon", "fine", "swiss", "target"}
Init == TBInit
Next == (Advance /\ Trace[l + 1].ev \in Kinds) \/ TBDone
Spec == Init /\ [][Next]_<<l, hi, on>>
At(r, x, y) == r.val[x + y * (r.w + 1) + 1]
Within(r, F(_, _), t) == Len(r.val) = (r.w + 1) * (r.h + 1) /\ \A x \in 0..r.w, y \in 0..r.h : Near(At(r, x, y), F(x, y), t)
Exact(r, F(_, _)) == Within(r, F, 1)
HolesExact == on /\ Rec.ev = "holes" => LET F(x, y) == HoleField(Rec.w, Rec.h, Rec.shape, x, y) IN Exact(Rec, F)
PolygonExact == on /\ Rec.ev = "polygon" => LET F(x, y) == PolygonField(Rec.w, Rec.h, Rec.shape, x, y) IN Exact(Rec, F)
FineExact == on /\ Rec.ev = "fine" => LET F(x, y) == FineField(Rec.w, Rec.h, Rec.shape, x, y) IN Within(Rec, F, 4)
SwissExact == on /\ Rec.ev = "swiss" => LET S == SwissHoles(Rec.w, Rec.h) F(x, y) == SwissField(Rec.w, Rec.h, S, x, y) IN Exact(Rec, F)
\* Target and current field equal those of separate constructions.
TargetIndependent == on /\ Rec.ev = "target" => Rec.target = Rec.targetRef /\ Rec.field = Rec.fieldRef /\ Rec.band = Rec.bandRef
=============================================================================
