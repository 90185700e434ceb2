------------------------------ MODULE WenoTrace ------------------------------
(* C21.  "field": gradients of one level set.  Nodes are row-major over (x, y), bottom row first:        *)
(* phi in the unit of the field (12 K s = K Smooth + E there), sg the sign of the velocity, band whether  *)
(* the node is in the band, g the gradient in 10^-5 of the unit, hold whether nothing else changed.     *)
(* "pair": the gradients of a level set and of its mirrored or transposed image, node by node.          *)
(* "corners": gradients at the corners of two fields whose values differ by at most a thousandth.       *)
(* "plane": a field linear in x and y: slopes a and b in sixteenths, gradients in 10^-5.                *)
EXTENDS TraceBase, WenoOps
Init == TBInit
Next == Advance \/ TBDone
Spec == Init /\ [][Next]_<<l, hi, on>>
Is(e) == on /\ Rec.ev = e
X(r, n) == (n - 1) % (r.w + 1)
Y(r, n) == (n - 1) \div (r.w + 1)
At(r, x, y) == r.phi[x + y * (r.w + 1) + 1]
Row(r, y) == [k \in 1..(r.w + 1) |-> At(r, k - 1, y)]
Column(r, x) == [k \in 1..(r.h + 1) |-> At(r, x, k - 1)]
Inward(k, n) == IF k = 0 THEN 1 ELSE n - 1
AtCorner(r, n) == X(r, n) \in {0, r.w} /\ Y(r, n) \in {0, r.h}
\* A corner whose two neighbours equal it.
Flat(r, n) == LET x == X(r, n) y == Y(r, n) IN
    AtCorner(r, n) /\ At(r, Inward(x, r.w), y) = r.phi[n] /\ At(r, x, Inward(y, r.h)) = r.phi[n]
Diagonal(r, n) == AbsA(r.phi[n] - At(r, Inward(X(r, n), r.w), Inward(Y(r, n), r.h)))
Upwind(r, n, sgn) == Length4(Parts(Row(r, Y(r, n)), Column(r, X(r, n)), X(r, n), Y(r, n), sgn, r.K, r.E))
Tol(e, m) == 40 + 6 * m + e \div 4000
Steepest(r, n) == LET a == Row(r, Y(r, n)) b == Column(r, X(r, n))
                      ds == {AbsA(Diff(a, X(r, n) + k)) : k \in -3..2} \cup {AbsA(Diff(b, Y(r, n) + k)) : k \in -3..2}
                  IN CHOOSE d \in ds : \A q \in ds : q <= d
Fits(r, n, sgn) == LET e == Upwind(r, n, sgn) IN Near(r.g[n], e, Tol(e, Steepest(r, n)))
\* Every band node has the upwind gradient; with no velocity either direction is upwind.
UpwindGradient == Is("field") => \A n \in 1..Len(Rec.phi) :
    Rec.band[n] /\ ~Flat(Rec, n) => IF Rec.sg[n] = 0 THEN Fits(Rec, n, 1) \/ Fits(Rec, n, -1) ELSE Fits(Rec, n, Rec.sg[n])
DiagonalAtCorners == Is("field") => \A n \in 1..Len(Rec.phi) :
    Rec.band[n] /\ Flat(Rec, n) => Near(Rec.g[n], Diagonal(Rec, n) * 141421, 2 + Diagonal(Rec, n))
ZeroOutsideBand == Is("field") => \A n \in 1..Len(Rec.phi) : ~Rec.band[n] => Rec.g[n] = 0
OnlyGradients == Is("field") => Rec.hold
Symmetric == Is("pair") => \A n \in 1..Len(Rec.a) : Near(Rec.a[n], Rec.b[n], 2)
\* The gradient varies gently with the field: corners that differ by a thousandth.
CornersGentle == Is("corners") => \A n \in 1..Len(Rec.a) : Near(Rec.a[n], Rec.b[n], 100000)
PlanesExact == Is("plane") => \A n \in 1..Len(Rec.g) :
    Rec.band[n] => Near((4 * Rec.g[n]) \div 50, Root(250000 * (Rec.a * Rec.a + Rec.b * Rec.b)), 3)
=============================================================================
