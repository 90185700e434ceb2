------------------------------ MODULE ContourOps ------------------------------
(* The discretised zero contour of a level set on a fixed grid: which points it has, which       *)
(* segments each element contributes, the area each element encloses, normals and move limits.   *)
(* A grid g is a record with                                                                     *)
(*   w, h : size;  phi : integer nodal values, row major from 1;  bt : |phi| < bt means zero;    *)
(*   on   : per node, whether it is active or masked;  all : every edge counts (target).         *)
(* Points have symbolic keys: <<0,x,y>> a node, <<1,x,y>> the edge (x,y)-(x+1,y), <<2,x,y>> the   *)
(* edge (x,y)-(x,y+1).                                                                            *)
EXTENDS Integers, Sequences, FiniteSets

NodeNo(g, x, y) == x + y * (g.w + 1) + 1
Phi(g, p) == g.phi[NodeNo(g, p[1], p[2])]
AbsV(v) == IF v < 0 THEN -v ELSE v
\* 1 inside (material), -1 outside, 0 on the contour.
SgnOf(v, bt) == IF AbsV(v) < bt THEN 0 ELSE IF v < 0 THEN -1 ELSE 1
Sg(g, p) == SgnOf(Phi(g, p), g.bt)
OnV(g, p) == g.all \/ g.on[NodeNo(g, p[1], p[2])]

Nodes(g) == (0..g.w) \X (0..g.h)
Elements(g) == (0..(g.w - 1)) \X (0..(g.h - 1))
\* Corners anticlockwise from bottom left; edge j joins corner j and the next one.
Corner(e, j) == CASE j = 1 -> e [] j = 2 -> <<e[1] + 1, e[2]>> [] j = 3 -> <<e[1] + 1, e[2] + 1>> [] j = 4 -> <<e[1], e[2] + 1>>
Nxt(j) == IF j = 4 THEN 1 ELSE j + 1
Prv(j) == IF j = 1 THEN 4 ELSE j - 1
EdgeKey(e, j) == CASE j = 1 -> <<1, e[1], e[2]>> [] j = 2 -> <<2, e[1] + 1, e[2]>> [] j = 3 -> <<1, e[1], e[2] + 1>> [] j = 4 -> <<2, e[1], e[2]>>
NodeKey(p) == <<0, p[1], p[2]>>
EdgeEnds(k) == IF k[1] = 1 THEN <<<<k[2], k[3]>>, <<k[2] + 1, k[3]>>>> ELSE <<<<k[2], k[3]>>, <<k[2], k[3] + 1>>>>
Considered(g, p, q) == OnV(g, p) \/ OnV(g, q)
IsCut(g, p, q) == Considered(g, p, q) /\ Sg(g, p) * Sg(g, q) = -1

ElemSigns(g, e) == [j \in 1..4 |-> Sg(g, Corner(e, j))]
HasI(s) == \E j \in 1..4 : s[j] = 1
HasO(s) == \E j \in 1..4 : s[j] = -1
Class(s) == IF ~HasO(s) THEN "IN" ELSE IF ~HasI(s) THEN "OUT" ELSE "CUT"
CentreSum(g, e) == Phi(g, Corner(e, 1)) + Phi(g, Corner(e, 2)) + Phi(g, Corner(e, 3)) + Phi(g, Corner(e, 4))
CutEdges(g, e) == SelectSeq(<<1, 2, 3, 4>>, LAMBDA j : IsCut(g, Corner(e, j), Corner(e, Nxt(j))))
FlatEdges(g, e) == SelectSeq(<<1, 2, 3, 4>>, LAMBDA j : /\ Considered(g, Corner(e, j), Corner(e, Nxt(j)))
                                                        /\ Sg(g, Corner(e, j)) = 0 /\ Sg(g, Corner(e, Nxt(j))) = 0)
FlatCorners(s) == SelectSeq(<<1, 2, 3, 4>>, LAMBDA j : s[j] = 0)
IsSaddle(g, e) == Len(CutEdges(g, e)) = 4
Status(g, e) == LET s == ElemSigns(g, e) IN
    IF Class(s) = "CUT" /\ IsSaddle(g, e) THEN (IF CentreSum(g, e) > 0 THEN "CIN" ELSE "COUT") ELSE Class(s)

\* The segments of one element, as pairs of keys.
CutSegs(g, e) ==
    LET s == ElemSigns(g, e)
        c == CutEdges(g, e)
        K(n) == EdgeKey(e, c[n])
        B == FlatCorners(s)
        CN(j) == NodeKey(Corner(e, j))
        joins == SelectSeq(B, LAMBDA j : s[Nxt(j)] = -1 \/ s[Prv(j)] = -1)
    IN CASE Len(c) = 2 -> <<<<K(1), K(2)>>>>
         [] Len(c) = 1 -> [n \in 1..Len(joins) |-> <<K(1), CN(joins[n])>>]
         [] Len(c) = 4 -> IF (s[1] = 1) = (CentreSum(g, e) > 0) THEN <<<<K(1), K(2)>>, <<K(3), K(4)>>>>
                                                                ELSE <<<<K(1), K(4)>>, <<K(2), K(3)>>>>
         [] Len(c) = 0 -> IF Class(s) = "CUT" /\ Len(B) = 2 THEN <<<<CN(B[1]), CN(B[2])>>>> ELSE <<>>
         [] OTHER -> <<>>
FlatSegs(g, e) ==
    LET f == FlatEdges(g, e) IN [n \in 1..Len(f) |-> <<NodeKey(Corner(e, f[n])), NodeKey(Corner(e, Nxt(f[n])))>>]
ElemSegs(g, e) == IF Class(ElemSigns(g, e)) = "OUT" THEN <<>> ELSE FlatSegs(g, e) \o CutSegs(g, e)

\* The points, stated independently of the elements.
HEdges(g) == {<<1, x, y>> : x \in 0..(g.w - 1), y \in 0..g.h}
VEdges(g) == {<<2, x, y>> : x \in 0..g.w, y \in 0..(g.h - 1)}
CrossingKeys(g) == {k \in HEdges(g) \cup VEdges(g) : IsCut(g, EdgeEnds(k)[1], EdgeEnds(k)[2])}
SegEnds(g) == UNION {LET s == ElemSegs(g, e) IN {s[n][1] : n \in 1..Len(s)} \cup {s[n][2] : n \in 1..Len(s)} : e \in Elements(g)}
PointKeys(g) == CrossingKeys(g) \cup {k \in SegEnds(g) : k[1] = 0}
KeysAt(g, keys, p) == {k \in keys : IF k[1] = 0 THEN k = NodeKey(p) ELSE p \in {EdgeEnds(k)[1], EdgeEnds(k)[2]}}

\* Position of a key in millionths of a cell (linear interpolation), by long division.
RECURSIVE LongDiv(_, _, _, _)
LongDiv(r, n, q, d) == IF d = 0 THEN q + (IF 2 * r >= n THEN 1 ELSE 0) ELSE LongDiv((10 * r) % n, n, 10 * q + ((10 * r) \div n), d - 1)
FracOf(a, b, digits) == LongDiv(a, a + b, 0, digits)      \* a / (a+b) in units of 10^-digits, 0 <= a < a+b <= 2*10^8
Micro == 1000000
CutFrac(g, k, digits) == FracOf(AbsV(Phi(g, EdgeEnds(k)[1])), AbsV(Phi(g, EdgeEnds(k)[2])), digits)
Position(g, k) ==
    CASE k[1] = 0 -> <<k[2] * Micro, k[3] * Micro>>
      [] k[1] = 1 -> <<k[2] * Micro + CutFrac(g, k, 6), k[3] * Micro>>
      [] k[1] = 2 -> <<k[2] * Micro, k[3] * Micro + CutFrac(g, k, 6)>>

\* Twice the material area of an element in units of 10^-8 (so a full element is 2*10^8).
\* Only for elements whose crossings are all considered.
FullAt(g, e) == \A j \in 1..4 : \/ Considered(g, Corner(e, j), Corner(e, Nxt(j)))
                                \/ Sg(g, Corner(e, j)) * Sg(g, Corner(e, Nxt(j))) # -1
Local(g, e, k) == \* position relative to the element, units 10^-4
    CASE k[1] = 0 -> <<10000 * (k[2] - e[1]), 10000 * (k[3] - e[2])>>
      [] k[1] = 1 -> <<10000 * (k[2] - e[1]) + CutFrac(g, k, 4), 10000 * (k[3] - e[2])>>
      [] k[1] = 2 -> <<10000 * (k[2] - e[1]), 10000 * (k[3] - e[2]) + CutFrac(g, k, 4)>>
RECURSIVE Shoe(_, _)
Shoe(v, n) == IF n = 0 THEN 0
              ELSE LET m == IF n = Len(v) THEN 1 ELSE n + 1 IN v[n][1] * v[m][2] - v[m][1] * v[n][2] + Shoe(v, n - 1)
\* Walk round the element: material corners, contour corners (unless they only touch outside), crossings.
Outline(g, e) ==
    LET s == ElemSigns(g, e)
        V(j) == IF s[j] = 1 \/ (s[j] = 0 /\ ~(s[Nxt(j)] = -1 /\ s[Prv(j)] = -1)) THEN <<Local(g, e, NodeKey(Corner(e, j)))>> ELSE <<>>
        C(j) == IF s[j] * s[Nxt(j)] = -1 THEN <<Local(g, e, EdgeKey(e, j))>> ELSE <<>>
    IN V(1) \o C(1) \o V(2) \o C(2) \o V(3) \o C(3) \o V(4) \o C(4)
\* Twice the area of the corner cut off at corner j.
CornerTri(g, e, j) ==
    LET c == Local(g, e, NodeKey(Corner(e, j)))
        a == Local(g, e, EdgeKey(e, j))
        b == Local(g, e, EdgeKey(e, Prv(j)))
    IN (AbsV(a[1] - c[1]) + AbsV(a[2] - c[2])) * (AbsV(b[1] - c[1]) + AbsV(b[2] - c[2]))
Area2(g, e) ==
    LET s == ElemSigns(g, e) IN
    CASE Class(s) = "IN" -> 200000000
      [] Class(s) = "OUT" -> 0
      [] OTHER -> IF s[1] * s[2] = -1 /\ s[2] * s[3] = -1 /\ s[3] * s[4] = -1
                  THEN LET T(z) == (IF s[1] = z THEN CornerTri(g, e, 1) + CornerTri(g, e, 3) ELSE CornerTri(g, e, 2) + CornerTri(g, e, 4))
                       IN IF CentreSum(g, e) > 0 THEN 200000000 - T(-1) ELSE T(1)
                  ELSE Shoe(Outline(g, e), Len(Outline(g, e)))

\* Elements round a point, to state where contours may not end.
AroundKey(g, k) == {e \in Elements(g) : \E j \in 1..4 : EdgeKey(e, j) = k \/ NodeKey(Corner(e, j)) = k}
Interior(g, k) == CASE k[1] = 0 -> k[2] \in 1..(g.w - 1) /\ k[3] \in 1..(g.h - 1)
                    [] k[1] = 1 -> k[3] \in 1..(g.h - 1)
                    [] k[1] = 2 -> k[2] \in 1..(g.w - 1)
FullyActive(g, e) == \A j \in 1..4 : OnV(g, Corner(e, j))
OnBorder(g, k) == CASE k[1] = 0 -> k[2] = 0 \/ k[2] = g.w \/ k[3] = 0 \/ k[3] = g.h
                    [] k[1] = 1 -> k[3] = 0 \/ k[3] = g.h
                    [] k[1] = 2 -> k[2] = 0 \/ k[2] = g.w
=============================================================================
