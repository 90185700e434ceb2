-------------------------------- MODULE Images --------------------------------
(* Design of C26: discretisation commutes with turning a scene over and with moving it onto a larger mesh. *)
(* A behaviour starts from any field on a small mesh and turns the scene over and over again; in every     *)
(* state the contour of the present field must be the image of the contour of the first one.              *)
(* Tilted: a rule for saddles that always joins the same corners (to be refuted).                         *)
EXTENDS ContourOps, ImageOps, TLC, Functions
CONSTANTS W, H, V, Void, Tilted
VARIABLES first, now, m
vars == <<first, now, m>>
Grid(w, h, f) == [w |-> w, h |-> h, phi |-> f, bt |-> 1, on |-> [i \in 1..((w + 1) * (h + 1)) |-> TRUE], all |-> FALSE]
N == (W + 1) * (H + 1)
Rim(i) == (i - 1) % (W + 1) \in {0, W} \/ (i - 1) \div (W + 1) \in {0, H}
\* With Void the rim of the mesh is void, as it has to be for a scene that is moved.
Free == IF Void THEN {i \in 1..N : ~Rim(i)} ELSE 1..N
Start == [w |-> W, h |-> H, mx |-> FALSE, my |-> FALSE, tr |-> FALSE, ox |-> 0, oy |-> 0]
Init == /\ \E s \in [Free -> (-V)..V] : first = Grid(W, H, [i \in 1..N |-> IF i \in Free THEN s[i] ELSE -1])
        /\ now = first /\ m = Start
Val(g, x, y) == g.phi[NodeNo(g, x, y)]
Filled(w, h, F(_, _)) == Grid(w, h, [i \in 1..((w + 1) * (h + 1)) |-> F((i - 1) % (w + 1), (i - 1) \div (w + 1))])
\* Turning the present scene over.  The map of the whole is adjusted: which mirror of the original it is, and the offset.
InX(f) == IF m.tr THEN [m EXCEPT !.my = ~@] ELSE [m EXCEPT !.mx = ~@]
InY(f) == IF m.tr THEN [m EXCEPT !.mx = ~@] ELSE [m EXCEPT !.my = ~@]
WidthNow == IF m.tr THEN H ELSE W
HeightNow == IF m.tr THEN W ELSE H
MirrorX == /\ now' = Filled(now.w, now.h, LAMBDA x, y : Val(now, now.w - x, y))
           /\ m' = [InX(0) EXCEPT !.ox = now.w - WidthNow - m.ox] /\ UNCHANGED first
MirrorY == /\ now' = Filled(now.w, now.h, LAMBDA x, y : Val(now, x, now.h - y))
           /\ m' = [InY(0) EXCEPT !.oy = now.h - HeightNow - m.oy] /\ UNCHANGED first
Transpose == /\ now' = Filled(now.h, now.w, LAMBDA x, y : Val(now, y, x))
             /\ m' = [m EXCEPT !.tr = ~@, !.ox = m.oy, !.oy = m.ox] /\ UNCHANGED first
\* A column of void at the left, or a row of void below (once each).
Widen == /\ Void /\ now.w = WidthNow
         /\ now' = Filled(now.w + 1, now.h, LAMBDA x, y : IF x = 0 THEN -1 ELSE Val(now, x - 1, y))
         /\ m' = [m EXCEPT !.ox = @ + 1] /\ UNCHANGED first
Raise == /\ Void /\ now.h = HeightNow
         /\ now' = Filled(now.w, now.h + 1, LAMBDA x, y : IF y = 0 THEN -1 ELSE Val(now, x, y - 1))
         /\ m' = [m EXCEPT !.oy = @ + 1] /\ UNCHANGED first
Next == MirrorX \/ MirrorY \/ Transpose \/ Widen \/ Raise
Spec == Init /\ [][Next]_vars
\* Image of a key and of an element.
Cell(k) == IF k[1] = 0 THEN <<2 * k[2], 2 * k[3]>> ELSE IF k[1] = 1 THEN <<2 * k[2] + 1, 2 * k[3]>> ELSE <<2 * k[2], 2 * k[3] + 1>>
KeyAt(c) == IF c[1] % 2 = 1 THEN <<1, c[1] \div 2, c[2] \div 2>> ELSE IF c[2] % 2 = 1 THEN <<2, c[1] \div 2, c[2] \div 2>> ELSE <<0, c[1] \div 2, c[2] \div 2>>
KeyImage(k) == KeyAt(Place(m, Cell(k)[1], Cell(k)[2], 2))
ElementImage(e) == LET c == Place(m, 2 * e[1] + 1, 2 * e[2] + 1, 2) IN <<c[1] \div 2, c[2] \div 2>>
Segs(g, e) == IF Tilted /\ Class(ElemSigns(g, e)) = "CUT" /\ IsSaddle(g, e)
              THEN <<<<EdgeKey(e, 1), EdgeKey(e, 2)>>, <<EdgeKey(e, 3), EdgeKey(e, 4)>>>> ELSE ElemSegs(g, e)
SegSet(g, e) == {{s[1], s[2]} : s \in Range(Segs(g, e))}
FieldMoved == \A p \in Nodes(first) : Val(now, Place(m, p[1], p[2], 1)[1], Place(m, p[1], p[2], 1)[2]) = Val(first, p[1], p[2])
PointsMoved == {KeyImage(k) : k \in PointKeys(first)} = PointKeys(now)
PlacesMoved == \A k \in PointKeys(first) : LET a == Place(m, Position(first, k)[1], Position(first, k)[2], Micro) b == Position(now, KeyImage(k))
                                           IN AbsV(a[1] - b[1]) <= 1 /\ AbsV(a[2] - b[2]) <= 1
SegmentsMoved == \A e \in Elements(first) : {{KeyImage(k) : k \in s} : s \in SegSet(first, e)} = SegSet(now, ElementImage(e))
AreasMoved == \A e \in Elements(first) : AbsV(Area2(first, e) - Area2(now, ElementImage(e))) <= 40000
NothingElse == Cardinality(PointKeys(now)) = Cardinality(PointKeys(first))
               /\ \A e \in Elements(now) \ {ElementImage(q) : q \in Elements(first)} : SegSet(now, e) = {} /\ Area2(now, e) = 0
===============================================================================
