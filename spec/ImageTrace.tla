------------------------------ MODULE ImageTrace ------------------------------
(* C26.  Each record holds what can be observed of a scene (a) and of its image (b) after the same       *)
(* operation: node kinds, fields, areas, points and segments.  mx, my, tr, ox, oy say what the image is:  *)
(* mirror, mirror, transpose, then move.  Fields and velocities are in 10^-7, all else in 10^-5 of a cell; *)
(* windows are row-major over the part of the mesh that corresponds to the original.                   *)
EXTENDS TraceBase, ImageOps
Init == TBInit
Next == Advance \/ TBDone
Spec == Init /\ [][Next]_<<l, hi, on>>
U == 100000
Tol == 2
Map(r) == [w |-> r.w, h |-> r.h, mx |-> r.mx, my |-> r.my, tr |-> r.tr, ox |-> r.ox, oy |-> r.oy]
\* Place in b of node (or element) number n of a.
NodeImage(r, n) == LET m == [Map(r) EXCEPT !.ox = 0, !.oy = 0]
                       p == Place(m, (n - 1) % (r.w + 1), (n - 1) \div (r.w + 1), 1)
                   IN p[1] + p[2] * (IF r.tr THEN r.h + 1 ELSE r.w + 1) + 1
ElementImage(r, n) == LET m == [Map(r) EXCEPT !.ox = 0, !.oy = 0, !.w = r.w - 1, !.h = r.h - 1]
                          p == Place(m, (n - 1) % r.w, (n - 1) \div r.w, 1)
                      IN p[1] + p[2] * (IF r.tr THEN r.h ELSE r.w) + 1
Same(r, x, y, t) == Len(x) = Len(y) /\ \A n \in DOMAIN x : Near(x[n], y[NodeImage(r, n)], t)
KindsAgree == on => Same(Rec, Rec.a.kind, Rec.b.kind, 0)
BandAgrees == on => Rec.a.nb = Rec.b.nb /\ Rec.a.nm = Rec.b.nm
FieldAgrees == on => Same(Rec, Rec.a.phi, Rec.b.phi, Tol)
VelocitiesAgree == on => Same(Rec, Rec.a.vel, Rec.b.vel, Tol)
GradientsAgree == on => Same(Rec, Rec.a.grad, Rec.b.grad, Tol)
AreasAgree == on => /\ Len(Rec.a.area) = Len(Rec.b.area)
                    /\ \A n \in DOMAIN Rec.a.area : Near(Rec.a.area[n], Rec.b.area[ElementImage(Rec, n)], Tol)
\* A moved scene has void all round: its area and length are the same.
TotalsAgree == on => Near(Rec.a.total, Rec.b.total, Tol) /\ Near(Rec.a.len, Rec.b.len, Tol)
ReturnsAgree == on => Rec.ra = Rec.rb
\* Points: place, length, limits, flags and counts, perimeter; the normal as a direction.
PointLike(r, p, q) ==
    LET c == Place(Map(r), p[1], p[2], U) d == Direction(Map(r), p[6], p[7]) IN
    /\ Near(q[1], c[1], Tol) /\ Near(q[2], c[2], Tol)
    /\ Near(q[3], p[3], Tol) /\ Near(q[4], p[4], Tol) /\ Near(q[5], p[5], Tol)
    /\ Near(q[6], d[1], 20) /\ Near(q[7], d[2], 20)
    /\ q[8] = p[8] /\ Near(q[9], p[9], Tol)
PointsAgree == on => /\ Len(Rec.a.pts) = Len(Rec.b.pts)
                     /\ \A n \in DOMAIN Rec.a.pts : \E k \in DOMAIN Rec.b.pts : PointLike(Rec, Rec.a.pts[n], Rec.b.pts[k])
\* Segments: midpoint, length and element.
SegmentLike(r, p, q) ==
    LET c == Place(Map(r), p[1], p[2], U) e == Place(Map(r), p[4], p[5], 2) IN
    /\ Near(q[1], c[1], Tol) /\ Near(q[2], c[2], Tol) /\ Near(q[3], p[3], Tol) /\ q[4] = e[1] /\ q[5] = e[2]
SegmentsAgree == on => /\ Len(Rec.a.segs) = Len(Rec.b.segs)
                       /\ \A n \in DOMAIN Rec.a.segs : \E k \in DOMAIN Rec.b.segs : SegmentLike(Rec, Rec.a.segs[n], Rec.b.segs[k])
===============================================================================
