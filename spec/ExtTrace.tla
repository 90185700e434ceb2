------------------------------- MODULE ExtTrace -------------------------------
(* C06.  A velocity extension replayed as Accept steps of Extension: "start" carries the field, the *)
(* boundary points, the distances and the velocities afterwards, each "pop" one acceptance, "end"    *)
(* closes the march.  "lin" records compare three extensions on one field; "uniform" ones hold the    *)
(* range of the velocities in the band when all points have the velocity v.                          *)
(* Units: coordinates and distances 10^-6, velocities 10^-3.                                        *)
EXTENDS TraceBase, ExtOps
VARIABLES st, acc, cnt, dist
ext == <<st, acc, cnt, dist>>
C6 == 1000000

Start(r) == /\ r.ev = "start" /\ r.new
            /\ st' = l + 1
            /\ acc' = [i \in NodeSet(r.w, r.h) |-> IF i \in InitiallyAccepted(r.w, r.h, r.phi) THEN 1 ELSE 0]
            /\ dist' = r.dist
            /\ cnt' = 1
\* Only band nodes are reached.
Pop(r) == /\ r.ev = "pop" /\ st > 0
          /\ LET s == Trace[st] IN
             /\ r.node \in NodeSet(s.w, s.h)
             /\ acc[r.node] = 0
             /\ s.active[r.node] = 1
             /\ \E j \in Nbrs(s.w, s.h, r.node) : acc[j] > 0
          /\ acc' = [acc EXCEPT ![r.node] = cnt + 1]
          /\ dist' = [dist EXCEPT ![r.node] = r.val]
          /\ cnt' = cnt + 1
          /\ st' = st
\* Every band node next to an accepted node has been accepted.
End(r) == /\ r.ev = "end" /\ st > 0
          /\ LET s == Trace[st] IN
             \A i \in DOMAIN acc : (s.active[i] = 1 /\ \E j \in Nbrs(s.w, s.h, i) : acc[j] > 0) => acc[i] > 0
          /\ st' = 0 /\ acc' = <<>> /\ cnt' = 0 /\ dist' = <<>>
Lin(r) == r.ev \in {"lin", "uniform"} /\ r.new /\ UNCHANGED ext
Init == TBInit /\ st = 0 /\ acc = <<>> /\ cnt = 0 /\ dist = <<>>
Next == \/ Advance /\ LET r == Trace[l + 1] IN Start(r) \/ Pop(r) \/ End(r) \/ Lin(r)
        \/ TBDone /\ UNCHANGED ext
Spec == Init /\ [][Next]_<<l, hi, on, ext>>

IsStart == on /\ st = l
X(r, i) == (i - 1) % (r.w + 1)
Y(r, i) == (i - 1) \div (r.w + 1)
LevelSetUntouched == IsStart \/ (on /\ Rec.ev = "uniform") => Rec.phiBefore = Rec.phiAfter
\* Nodes next to the contour.
OnNode == 1000
BorderVelocity == IsStart => \A i \in DOMAIN acc : acc[i] = 1 =>
    LET A == Assigned(Rec.pts, X(Rec, i), Y(Rec, i), C6)
        at == {p \in A : DistTo(Rec.pts[p], X(Rec, i), Y(Rec, i), C6) < OnNode}
        m == CHOOSE d \in {DistTo(Rec.pts[p], X(Rec, i), Y(Rec, i), C6) : p \in A} : \A e \in A : d <= DistTo(Rec.pts[e], X(Rec, i), Y(Rec, i), C6)
    IN IF A = {} THEN Rec.vel[i] = 0
       ELSE IF at # {} THEN \E p \in at : Rec.vel[i] = Rec.pts[p].v
       ELSE Near(Rec.vel[i], InverseSquare(Rec.pts, A, X(Rec, i), Y(Rec, i), C6), 8 + 20000 \div m)
\* Nodes further out.
JustPopped == on /\ st > 0 /\ st < l
Accepted(i) == [j \in DOMAIN acc |-> IF j = i THEN 0 ELSE acc[j]]
UpwindAverage == JustPopped =>
    LET s == Trace[st] i == Rec.node ac == Accepted(i)
        A == Upwind(s.w, s.h, dist, ac, i, 1, 3)
        B == Upwind(s.w, s.h, dist, ac, i, 2, 3)
        wt(j) == AbsF(dist[i] - AbsF(dist[j]))
    IN IF B = {} THEN \E a \in A : Near(s.vel[i], s.vel[a], 2)
       ELSE IF A = {} THEN \E b \in B : Near(s.vel[i], s.vel[b], 2)
       ELSE \E a \in A, b \in B :
              LET t == wt(a) + wt(b) IN
              IF t < 20 THEN TRUE
              ELSE Near(s.vel[i], AverageOf(s.vel[a], wt(a), s.vel[b], wt(b)), 5 + (2 * AbsF(s.vel[a] - s.vel[b])) \div t)
\* No velocity leaves the range of the boundary velocities (and zero, where the contour has nodes no point belongs to).
Hull == on /\ st > 0 =>
    LET s == Trace[st]
        B == {s.pts[p].v : p \in 1..Len(s.pts)}
        bare == \E i \in InitiallyAccepted(s.w, s.h, s.phi) : Assigned(s.pts, X(s, i), Y(s, i), C6) = {}
        S == B \cup (IF bare THEN {0} ELSE {})
        In(i) == (\E a \in S : a <= s.vel[i] + 1) /\ (\E b \in S : s.vel[i] <= b + 1)
    IN IF IsStart THEN \A i \in DOMAIN acc : acc[i] = 1 => In(i) ELSE In(Rec.node)
Linear == on /\ Rec.ev = "lin" => \A i \in 1..Len(Rec.a) : Near(Rec.c[i], Rec.k * Rec.a[i] + Rec.b[i], 3 + AbsF(Rec.k))
UniformExtends == on /\ Rec.ev = "uniform" => Rec.lo = Rec.v /\ Rec.hi = Rec.v
=============================================================================
