--------------------------------- MODULE Shapes ---------------------------------
(* Design of the shape tests (C14, C15): on every triangle and every axis-parallel rectangle of a    *)
(* small grid, walked either way round from any vertex, the winding rule accepts exactly the points   *)
(* strictly inside (points on the outline may go either way), and rectangles agree with polygons.     *)
EXTENDS ShapeOps
CONSTANT G
VARIABLES P, p
Pt == (0..G) \X (0..G)
Close(s) == Append(s, s[1])
Init == /\ p \in Pt
        /\ \/ \E a, b, c \in Pt : P = Close(<<a, b, c>>)
           \/ \E a, b \in Pt : /\ a[1] < b[1] /\ a[2] < b[2]
                               /\ P = Close(<<a, <<a[1], b[2]>>, b, <<b[1], a[2]>>>>)
Next == UNCHANGED <<P, p>>
Spec == Init /\ [][Next]_<<P, p>>
StrictlyInside == \/ \A n \in 1..(Len(P) - 1) : Cross(P[n], P[n + 1], p) > 0
                  \/ \A n \in 1..(Len(P) - 1) : Cross(P[n], P[n + 1], p) < 0
WindingIsInside == ~OnOutline(P, p) => ((Winding(P, p) # 0) <=> StrictlyInside)
RectangleAgrees == Len(P) = 5 /\ ~OnOutline(P, p) => (InRect(P[1], P[3], p) <=> Winding(P, p) # 0)
Reversed == [i \in 1..Len(P) |-> P[Len(P) + 1 - i]]
OrientationFree == ~OnOutline(P, p) => Winding(Reversed, p) = -Winding(P, p)
OutlineIsZero == OnOutline(P, p) <=> MinSet({SegSq6(P[n], P[n + 1], p) : n \in 1..(Len(P) - 1)}) = 0
=============================================================================
