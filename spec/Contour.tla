-------------------------------- MODULE Contour --------------------------------
(* Design of the discretisation (C09-C11): an element-by-element scan that discovers points and *)
(* segments, each shared point once, against the declarative contour of ContourOps.  TLC visits  *)
(* every sign pattern on a small grid with several magnitude patterns.                           *)
EXTENDS ContourOps, TLC
CONSTANTS W, H, Patterns, V
Values == (-V)..V
VARIABLES phi, e, pts, segs, at
vars == <<phi, e, pts, segs, at>>

n == (W + 1) * (H + 1)
MagnitudesOf(p) == CASE p = 1 -> [i \in 1..n |-> 1 + ((i * 2) % 5)]
                     [] p = 2 -> [i \in 1..n |-> 1 + ((i * i) % 4)]
                     [] p = 3 -> [i \in 1..n |-> 1]
G(f) == [w |-> W, h |-> H, phi |-> f, bt |-> 1, on |-> [i \in 1..n |-> TRUE], all |-> FALSE]
g == G(phi)

Init == /\ \E p \in Patterns, s \in [1..n -> Values] : phi = [i \in 1..n |-> s[i] * MagnitudesOf(p)[i]]
        /\ e = 0 /\ pts = <<>> /\ segs = <<>>
        /\ at = [p \in Nodes(g) |-> {}]

\* The scan numbers points when first met; a node remembers the points on it and its edges.
EndsOf(k) == IF k[1] = 0 THEN {<<k[2], k[3]>>} ELSE {EdgeEnds(k)[1], EdgeEnds(k)[2]}
Known(k, a, ps) == \E q \in EndsOf(k) : \E i \in a[q] : ps[i] = k
RECURSIVE AddAll(_, _, _)
AddAll(ks, ps, a) ==
    IF ks = <<>> THEN <<ps, a>>
    ELSE LET k == Head(ks) IN
         IF Known(k, a, ps) THEN AddAll(Tail(ks), ps, a)
         ELSE AddAll(Tail(ks), Append(ps, k), [q \in DOMAIN a |-> IF q \in EndsOf(k) THEN a[q] \cup {Len(ps) + 1} ELSE a[q]])
RECURSIVE Flatten(_)
Flatten(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flatten(Tail(s))
Elem(i) == <<i % W, i \div W>>
Scan == /\ e < W * H
        /\ LET el == Elem(e)
               c == CutEdges(g, el)
               ks == (IF Class(ElemSigns(g, el)) = "OUT" THEN <<>> ELSE [i \in 1..Len(c) |-> EdgeKey(el, c[i])]) \o Flatten(ElemSegs(g, el))
               r == AddAll(ks, pts, at)
           IN pts' = r[1] /\ at' = r[2] /\ segs' = segs \o [i \in 1..Len(ElemSegs(g, el)) |-> <<ElemSegs(g, el)[i], el>>]
        /\ e' = e + 1
        /\ UNCHANGED phi
Done == e = W * H /\ UNCHANGED vars
Next == Scan \/ Done
Spec == Init /\ [][Next]_vars

Finished == e = W * H
RangeOf(s) == {s[i] : i \in DOMAIN s}
NoDuplicates == Cardinality(RangeOf(pts)) = Len(pts)
PointsAreCrossings == Finished => RangeOf(pts) = PointKeys(g)
NodesKnowTheirPoints == Finished => \A p \in Nodes(g) : {pts[i] : i \in at[p]} = KeysAt(g, RangeOf(pts), p) /\ Cardinality(at[p]) <= 4
Degree(k) == Cardinality({i \in 1..Len(segs) : segs[i][1][1] = k}) + Cardinality({i \in 1..Len(segs) : segs[i][1][2] = k})
NoDangling == Finished => \A k \in RangeOf(pts) : /\ Interior(g, k) => Degree(k) % 2 = 0
                                                  /\ k[1] # 0 /\ Interior(g, k) => Degree(k) = 2
                                                  /\ Degree(k) >= 1
SegmentsJoinDifferentPoints == \A i \in 1..Len(segs) : segs[i][1][1] # segs[i][1][2]
AtMostFourPerElement == Finished => \A el \in Elements(g) : Len(ElemSegs(g, el)) <= 4
AreaInRange == Finished => \A el \in Elements(g) : Area2(g, el) \in 0..200000000
Neg(f) == [i \in 1..n |-> -f[i]]
MirrorX(f) == [i \in 1..n |-> LET x == (i - 1) % (W + 1) y == (i - 1) \div (W + 1) IN f[(W - x) + y * (W + 1) + 1]]
Complement == Finished => \A el \in Elements(g) :
    LET a == Area2(g, el) b == Area2(G(Neg(phi)), el) IN
    \* A saddle with centre value zero and an edge lying on the contour are ties that go the same way for both.
    (Class(ElemSigns(g, el)) = "CUT" /\ ~(IsSaddle(g, el) /\ CentreSum(g, el) = 0) /\ FlatEdges(g, el) = <<>>) => AbsV(a + b - 200000000) <= 80000
Mirrored == Finished => \A el \in Elements(g) :
    AbsV(Area2(g, el) - Area2(G(MirrorX(phi)), <<W - 1 - el[1], el[2]>>)) <= 40000
\* The material side of the segments is what the area measures: an element without segments is full or empty.
AreaMatchesSegments == Finished => \A el \in Elements(g) :
    (Area2(g, el) \notin {0, 200000000}) => CutSegs(g, el) # <<>>
=============================================================================
