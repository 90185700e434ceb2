-------------------------------- MODULE ShapeOps --------------------------------
(* Exact geometry of holes, rectangles and polygons.  Coordinates are integers in units of one      *)
(* eighth of a cell, distances are in thousandths of a cell.                                        *)
EXTENDS Integers, Sequences, FiniteSets
AbsS(v) == IF v < 0 THEN -v ELSE v
MinSet(S) == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE Bisect(_, _, _)
Bisect(x, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= x THEN Bisect(x, m, hi) ELSE Bisect(x, lo, m)
Isqrt(x) == Bisect(x, 0, 46340)                 \* floor of the square root
Len3(n2) == Isqrt(n2 * 15625)                   \* length in 1/1000 of a vector of squared length n2 (in 1/64)

Cross(a, b, p) == (b[1] - a[1]) * (p[2] - a[2]) - (p[1] - a[1]) * (b[2] - a[2])
Dot(a, b, p) == (b[1] - a[1]) * (p[1] - a[1]) + (b[2] - a[2]) * (p[2] - a[2])
Sq(a, b) == (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2])

InHole(c, r, p) == Sq(c, p) < r * r
InRect(lo, up, p) == lo[1] < p[1] /\ lo[2] < p[2] /\ p[1] < up[1] /\ p[2] < up[2]
\* Times the closed polygon P (first point repeated at the end) winds around p.
RECURSIVE WindTo(_, _, _)
WindTo(P, p, n) == IF n = 0 THEN 0 ELSE
    LET a == P[n] b == P[n + 1]
        k == IF a[2] <= p[2] /\ b[2] > p[2] /\ Cross(a, b, p) > 0 THEN 1
             ELSE IF a[2] > p[2] /\ b[2] <= p[2] /\ Cross(a, b, p) < 0 THEN -1 ELSE 0
    IN k + WindTo(P, p, n - 1)
Winding(P, p) == WindTo(P, p, Len(P) - 1)
OnSegment(a, b, p) == IF a = b THEN p = a ELSE Cross(a, b, p) = 0 /\ Dot(a, b, p) >= 0 /\ Dot(b, a, p) >= 0
OnOutline(P, p) == \E n \in 1..(Len(P) - 1) : OnSegment(P[n], P[n + 1], p)

\* Squared distance (times 15625/64, i.e. in 10^-6 cells squared) from p to the segment a b.
SegSq6(a, b, p) ==
    IF Sq(a, b) = 0 \/ Dot(a, b, p) <= 0 THEN Sq(a, p) * 15625
    ELSE IF Dot(b, a, p) <= 0 THEN Sq(b, p) * 15625
    ELSE LET c == AbsS(Cross(a, b, p)) IN ((c * c) \div Sq(a, b)) * 15625 + (((c * c) % Sq(a, b)) * 15625) \div Sq(a, b)
OutlineDist(P, p) == Isqrt(MinSet({SegSq6(P[n], P[n + 1], p) : n \in 1..(Len(P) - 1)}))
EdgeDist(w, h, x, y) == 1000 * MinSet({x, w - x, y, h - y})
\* Distance field of a set of holes <<x, y, r>>.
HoleField(w, h, Hs, x, y) ==
    MinSet({EdgeDist(w, h, x, y)} \cup {Len3(Sq(<<Hs[k][1], Hs[k][2]>>, <<8 * x, 8 * y>>)) - 125 * Hs[k][3] : k \in 1..Len(Hs)})
PolygonField(w, h, P, x, y) ==
    LET d == MinSet({EdgeDist(w, h, x, y), OutlineDist(P, <<8 * x, 8 * y>>)}) IN IF Winding(P, <<8 * x, 8 * y>>) # 0 THEN -d ELSE d
\* The same for polygons in units of 1/64 of a cell (meshes of at most 7 cells), to 2/1000 of a cell.
FineLen(n2) == Isqrt(n2 * 244 + (n2 * 9) \div 64)
FineSeg(a, b, p) ==
    LET s == Sq(a, b) c == AbsS(Cross(a, b, p)) IN
    IF s = 0 \/ Dot(a, b, p) <= 0 THEN FineLen(Sq(a, p))
    ELSE IF Dot(b, a, p) <= 0 THEN FineLen(Sq(b, p))
    ELSE IF s < 2000 THEN Isqrt(((c * c) \div (64 * s)) * 15625 + (((c * c) % (64 * s)) * 15625) \div (64 * s))
    ELSE LET L == Isqrt(s * 4096) IN (c \div L) * 1000 + ((c % L) * 1000) \div L
FineField(w, h, P, x, y) ==
    LET p == <<64 * x, 64 * y>>
        d == MinSet({EdgeDist(w, h, x, y)} \cup {FineSeg(P[n], P[n + 1], p) : n \in 1..(Len(P) - 1)})
    IN IF Winding(P, p) # 0 THEN -d ELSE d
\* The staggered holes of the default structure (only where the centres fall on eighths of a cell).
Round30(w) == (w + 15) \div 30
SwissHoles(w, h) ==
    LET nx == Round30(w) ny == Round30(h)
        dx == (4 * w) \div nx dy == (4 * h) \div ny
    IN {<<dx + 2 * i * dx, dy + 2 * j * dy, 40>> : i \in 0..(nx - 1), j \in 0..(ny - 1)}
       \cup {<<2 * (dx + i * dx), 2 * (dy + j * dy), 40>> : i \in 0..(nx - 2), j \in 0..(ny - 2)}
SwissField(w, h, S, x, y) ==
    MinSet({EdgeDist(w, h, x, y)} \cup
           {Len3(Sq(<<k[1], k[2]>>, <<8 * x, 8 * y>>)) - 125 * k[3] : k \in {q \in S : AbsS(q[1] - 8 * x) <= 160 /\ AbsS(q[2] - 8 * y) <= 160}})
=============================================================================
