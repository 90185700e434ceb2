------------------------------ MODULE EvolveTrace ------------------------------
(* C25.  Evolutions of one shape with a uniform velocity.  State: where the shape has to be (10^-4 of a *)
(* cell: centre and radius of a disc, sides of a rectangle), the number of updates and                  *)
(* reinitialisations, and the length and area seen last (10^-3).  A step moves the shape by d towards   *)
(* the material.  Each record shows the boundary points near the shape.                                 *)
EXTENDS TraceBase, Arith
VARIABLES st, shape, n, seen
vars == <<st, shape, n, seen>>
One == 10000
Moved(s, disc, g) == IF disc THEN <<s[1], s[2], s[3] + g>> ELSE <<s[1] - g, s[2] + g, s[3] - g, s[4] + g>>
Start(r) == r.ev = "start" /\ r.new /\ st' = l + 1 /\ shape' = r.shape /\ n' = 0 /\ seen' = <<>>
\* A recorded finding: in a band of five cells or more the upwind gradient at the edge of the band can send a mine
\* through zero, far from the shape.  What the boundary looks like from then on is not judged; narrower bands are.
Phantom(r) == /\ r.ev = "step" /\ ~r.new /\ st > 0 /\ r.phantom > 0 /\ Trace[st].band >= 5
              /\ st' = 0 /\ n' = 0 /\ seen' = <<>> /\ UNCHANGED shape
Step(r) == /\ r.ev = "step" /\ r.phantom = 0 /\ ~r.new /\ st > 0
           /\ shape' = Moved(shape, Trace[st].disc, Trace[st].up * r.d)
           /\ n' = n + 1 /\ st' = st
           /\ seen' = <<Rec.len, Rec.area>>
Again(r) == r.ev = "reinit" /\ ~r.new /\ st > 0 /\ n' = n + 1 /\ seen' = <<>> /\ UNCHANGED <<st, shape>>
Init == TBInit /\ st = 0 /\ shape = <<>> /\ n = 0 /\ seen = <<>>
Next == \/ Advance /\ LET r == Trace[l + 1] IN Start(r) \/ Step(r) \/ Again(r) \/ Phantom(r)
        \/ TBDone /\ UNCHANGED vars
Spec == Init /\ [][Next]_<<l, hi, on, vars>>
Judged == on /\ st > 0
Disc == Trace[st].disc
P == Rec.pts
\* A tenth of a cell per update (and half of that for the discrete contour itself); a thousandth while a straight side keeps its direction.
Tol == 1000 * (n + 1) + 500
SideTol == IF Trace[st].steady THEN 20 + n ELSE Tol
\* ---- discs
Radius(p) == LET x == AbsA(p[1] - shape[1]) y == AbsA(p[2] - shape[2]) m == Max2(x, y) \div 20000 + 1
             IN m * Root((x \div m) * (x \div m) + (y \div m) * (y \div m))
Round == Judged /\ Disc => \A k \in 1..Len(P) : Near(Radius(P[k]), shape[3], Tol + 20)
\* Every grid line that clearly crosses the circle meets the contour on both sides of the centre.
DiscWhole == Judged /\ Disc => \A ax \in 1..2 : \A g \in 0..50 : AbsA(g * One - shape[ax]) < shape[3] - Tol - One =>
                 \A u \in {-1, 1} : \E k \in 1..Len(P) : P[k][ax] = g * One /\ u * (P[k][3 - ax] - shape[3 - ax]) > 0
\* ---- rectangles: the sides, six cells and more from the corners
Along(p, ax) == p[ax] >= shape[2 * ax - 1] + 6 * One /\ p[ax] <= shape[2 * ax] - 6 * One
Across(p, ax) == p[3 - ax]
OnSide(p, ax, side) == Near(Across(p, ax), shape[2 * (3 - ax) - 2 + side], SideTol)
SidesStraight == Judged /\ ~Disc => \A k \in 1..Len(P) : \A ax \in 1..2 : Along(P[k], ax) => OnSide(P[k], ax, 1) \/ OnSide(P[k], ax, 2)
SidesWhole == Judged /\ ~Disc => \A ax \in 1..2 : \A g \in 0..50 :
    (g * One > shape[2 * ax - 1] + 6 * One /\ g * One < shape[2 * ax] - 6 * One) =>
        \A side \in 1..2 : \E k \in 1..Len(P) : P[k][ax] = g * One /\ OnSide(P[k], ax, side)
\* ---- area: the displacement times the length (half a cell at most for each corner that the discrete contour cuts)
AreaFollows == Judged /\ Rec.ev = "step" /\ seen # <<>> =>
    LET mean == (Rec.len + seen[1]) \div 2
        want == -(((mean * Rec.d) \div 100) \div 100)
        tol == ((mean \div 100) * (100 + AbsA(Rec.d) \div 4)) \div 100 + (IF Disc THEN 20 ELSE 2000)
    IN Near(Rec.area - seen[2], want, tol)
=============================================================================
