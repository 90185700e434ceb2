------------------------------ MODULE ContourTrace ------------------------------
(* C09-C13.  Each record is one discretisation made by the real code: the field (integers), the  *)
(* masks and active flags it saw, and everything it produced - points, segments, statuses,       *)
(* cross references, areas, normals and limits - as scaled integers.                             *)
EXTENDS TraceBase, NormalRule, LimitRule

Kinds == {"disc"}
Init == TBInit
Next == (Advance /\ Trace[l + 1].ev \in Kinds) \/ TBDone
Spec == Init /\ [][Next]_<<l, hi, on>>

R == Rec
Grid(r) == [w |-> r.w, h |-> r.h, phi |-> r.phi, bt |-> r.bt, all |-> r.tgt,
            on |-> [i \in 1..Len(r.phi) |-> r.act[i] = 1 \/ r.masked[i] = 1]]
\* The key of a reported position <<cell in x, in y, on a line of nodes in x, in y>>: on both lines it is a node.
KeyOf(c) == CASE c[3] = 1 /\ c[4] = 1 -> <<0, c[1], c[2]>>
              [] c[3] = 0 /\ c[4] = 1 -> <<1, c[1], c[2]>>
              [] c[3] = 1 /\ c[4] = 0 -> <<2, c[1], c[2]>>
              [] OTHER -> <<3, 0, 0>>
NearPos(p, q) == Near(p[1], q[1], 2) /\ Near(p[2], q[2], 2)
Keys(r) == [i \in 1..Len(r.pts) |-> KeyOf(r.cell[i])]

\* ---- C09
PointsExact == on =>
    LET g == Grid(R) ks == Keys(R) IN
    /\ R.nPoints = Len(R.pts)
    /\ Range(ks) = PointKeys(g)
    /\ NoDup(ks)
    /\ \A i \in 1..Len(ks) : NearPos(R.pts[i], Position(g, ks[i]))
NodeStatuses == on =>
    LET g == Grid(R) IN \A i \in 1..Len(R.phi) :
        R.status[i] = (CASE SgnOf(R.phi[i], R.bt) = 1 -> "I" [] SgnOf(R.phi[i], R.bt) = -1 -> "O" [] OTHER -> "B")
ElemNo(r, e) == e[1] + e[2] * r.w + 1
ElementStatuses == on => LET g == Grid(R) IN \A e \in Elements(g) : R.estatus[ElemNo(R, e)] = Status(g, e)
NodePoints == on =>
    LET g == Grid(R) ks == Keys(R) IN
    \A p \in Nodes(g) : LET q == R.nodePts[NodeNo(g, p[1], p[2])] IN
        /\ NoDup(q)
        /\ \A i \in Range(q) : i \in 1..Len(ks)
        /\ {ks[i] : i \in Range(q)} = KeysAt(g, Range(ks), p)
\* A discretisation changes no field (the driver compares both fields before and after, bit for bit).
FieldsUntouched == on => R.fieldsSame

\* ---- C10
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
Unordered(a, b) == {a, b}
ElementSegments == on =>
    LET g == Grid(R) ks == Keys(R) IN
    /\ \A i \in 1..Len(R.segs) : R.segs[i][1] \in 1..Len(ks) /\ R.segs[i][2] \in 1..Len(ks) /\ R.segs[i][3] \in 1..(R.w * R.h)
    /\ \A e \in Elements(g) :
        LET x == ElemSegs(g, e)
            exp == [i \in 1..Len(x) |-> Unordered(x[i][1], x[i][2])]
            lst == R.elemSegs[ElemNo(R, e)]
            got == [i \in 1..Len(lst) |-> Unordered(ks[R.segs[lst[i]][1]], ks[R.segs[lst[i]][2]])]
        IN /\ Len(lst) = Len(exp) /\ NoDup(lst)
           /\ \A i \in 1..Len(lst) : lst[i] \in 1..Len(R.segs) /\ R.segs[lst[i]][3] = ElemNo(R, e)
           /\ \A v \in Range(exp) \cup Range(got) : Count(exp, v) = Count(got, v)
    /\ Len(R.segs) = R.nSegments
    /\ Len(R.segs) = SumSeq([e \in 1..(R.w * R.h) |-> Len(R.elemSegs[e])])
\* Lengths in units of 1/20000: |d2 - len^2| within the rounding of both.
Dist2(p, q) == ((p[1] - q[1]) \div 50) * ((p[1] - q[1]) \div 50) + ((p[2] - q[2]) \div 50) * ((p[2] - q[2]) \div 50)
LenOK(v, p, q) == LET u == v \div 50 d2 == Dist2(p, q) IN
    /\ v >= 0 /\ v <= 1415000
    /\ Near(u * u, d2, 6 * (u + 3))
SegmentLengths == on =>
    /\ \A i \in 1..Len(R.segs) : LenOK(R.lens[i], R.pts[R.segs[i][1]], R.pts[R.segs[i][2]])
    /\ Near(R.total, SumSeq(R.lens), Len(R.lens) + 2)
CrossReferences == on =>
    \A k \in 1..Len(R.pts) :
        LET ends == {i \in 1..Len(R.segs) : k \in {R.segs[i][1], R.segs[i][2]}}
            ps == R.ptSegs[k]
            nb == R.ptNbrs[k]
            Other(i) == IF R.segs[i][1] = k THEN R.segs[i][2] ELSE R.segs[i][1]
            lenSum == SumSeq([i \in 1..Len(ps) |-> R.lens[ps[i]]])
        IN /\ NoDup(ps) /\ Range(ps) = ends
           /\ Len(nb) = Len(ps)
           /\ \A v \in Range(nb) \cup {Other(i) : i \in ends} : Count(nb, v) = Cardinality({i \in ends : Other(i) = v})
           /\ Near(2 * R.ptLens[k], lenSum, Len(ps) + 2)
           /\ Near(R.perims[k], lenSum, Len(ps) + 2)
NoEndsInside == on =>
    LET g == Grid(R) ks == Keys(R) IN
    \A k \in 1..Len(ks) : (Interior(g, ks[k]) /\ \A e \in AroundKey(g, ks[k]) : FullyActive(g, e)) =>
        /\ Len(R.ptSegs[k]) % 2 = 0
        /\ ks[k][1] # 0 => Len(R.ptSegs[k]) = 2

\* ---- C11 (areas in units of 5*10^-9: a full element is 2*10^8)
AreaTol == 60000
Areas == on =>
    LET g == Grid(R) IN
    \A e \in Elements(g) : LET a == R.areas[ElemNo(R, e)] IN
        /\ a \in 0..200000000
        /\ Class(ElemSigns(g, e)) = "IN" => a = 200000000
        /\ Class(ElemSigns(g, e)) = "OUT" => a = 0
        /\ FullAt(g, e) => Near(a, Area2(g, e), AreaTol)
\* Total, sum of the fractions in units of 10^-6.
AreaTotal == on => Near(R.areaTotal, SumSeq([i \in 1..Len(R.areas) |-> R.areas[i] \div 200]), Len(R.areas) + 2) /\ R.areaReturned = R.areaTotal

\* ---- C12
IsUnit(n) == Near(n[1] * n[1] + n[2] * n[2], 100000000, 60000)
SameDir(n, u, tol) == Near(n[1], u[1], tol) /\ Near(n[2], u[2], tol)
InBand(r, g, p) == r.act[NodeNo(g, p[1], p[2])] = 1
Usable(r, g, p) == InBand(r, g, p) /\ GradAt(g, p) # <<0, 0>>
NearNode == 45000        \* closer than this to a node the weights are evaluated with more digits
NearTol == 4
NormalOK(r, g, k, pos, n) ==
    LET ends == IF k[1] = 0 THEN {<<k[2], k[3]>>} ELSE {EdgeEnds(k)[1], EdgeEnds(k)[2]}
        use == {p \in ends : Usable(r, g, p)}
        D(p) == AbsV(pos[1] - p[1] * Micro) + AbsV(pos[2] - p[2] * Micro)       \* distance, on the axis
        onto == {p \in use : D(p) < 998}
        maybe == {p \in use : D(p) \in 998..1002}
    IN
       \/ use = {}
       \/ maybe # {} /\ IsUnit(n)
       \/ /\ maybe = {} /\ onto # {}
          /\ \E p \in onto : SameDir(n, Unit(GradAt(g, p), 10000), NearTol)
       \/ /\ maybe = {} /\ onto = {} /\ Cardinality(use) = 1
          /\ \E p \in use : SameDir(n, Unit(GradAt(g, p), 10000), NearTol)
       \/ /\ maybe = {} /\ onto = {} /\ Cardinality(use) = 2
          /\ LET p == CHOOSE x \in use : TRUE
                 q == CHOOSE x \in use : x # p
                 v == Average(GradAt(g, p), D(p), GradAt(g, q), D(q))
                 m == Max2(AbsV(v[1]), AbsV(v[2]))
             IN IF D(p) < NearNode \/ D(q) < NearNode
                THEN LET a == IF D(p) < NearNode THEN p ELSE q
                         b == IF a = p THEN q ELSE p
                     IN IsUnit(n) /\ SameDir(n, Unit(AverageNear(Unit(GradAt(g, a), 10000), D(a), Unit(GradAt(g, b), 10000), D(b)), 10000), NearTol)
                ELSE IF m < 60000000 THEN TRUE      \* nearly opposite directions: the direction of the average is not determined
                ELSE IsUnit(n) /\ SameDir(n, Unit(v, 10000), IF m < 400000000 THEN 300 ELSE 60)
Normals == on =>
    LET g == Grid(R) ks == Keys(R) IN
    \A i \in 1..Len(ks) : /\ R.normFinite[i]
                          /\ (~R.tgt /\ ks[i][1] # 3) => NormalOK(R, g, ks[i], R.pts[i], R.normals[i])

\* ---- C13 (limits in millionths)
\* Closer to the edge of the domain than can be told apart from on it.
NextToBorder(r, p) == p[1] <= 2 \/ p[2] <= 2 \/ p[1] >= r.w * Micro - 2 \/ p[2] >= r.h * Micro - 2
Limits == on =>
    LET g == Grid(R) ks == Keys(R) IN
    \A i \in 1..Len(ks) :
        /\ Near(R.pos[i], R.ml, 1)
        /\ ks[i][1] # 3 => /\ (R.isDomain[i] = OnBorder(g, ks[i]) \/ (R.isDomain[i] /\ NextToBorder(R, R.pts[i])))
                           /\ LimitOK(R, g, R.pts[i], R.neg[i], R.isFixed[i])
=============================================================================
