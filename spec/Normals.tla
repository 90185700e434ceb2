-------------------------------- MODULE Normals --------------------------------
(* Design of the normal rule (C12) over all small fields: a normal is a unit vector or undefined, *)
(* exact for planar fields, unchanged when the field is scaled and mirrored with it.               *)
EXTENDS NormalRule, TLC
CONSTANTS W, H, V
VARIABLES phi, k, pc
vars == <<phi, k, pc>>
n == (W + 1) * (H + 1)
G(f) == [w |-> W, h |-> H, phi |-> f, bt |-> 1, on |-> [i \in 1..n |-> TRUE], all |-> FALSE]
g == G(phi)
Plane(a, b, c) == [i \in 1..n |-> a * ((i - 1) % (W + 1)) + b * ((i - 1) \div (W + 1)) + c]
Init == /\ \/ phi \in [1..n -> (-V)..V]
           \/ \E a, b \in -3..3, c \in -6..6 : phi = Plane(a, b, c)
        /\ k = <<0, 0, 0>> /\ pc = "field"
Choose == pc = "field" /\ pc' = "point" /\ k' \in PointKeys(g) /\ UNCHANGED phi
Stay == UNCHANGED vars
Next == Choose \/ Stay
Spec == Init /\ [][Next]_vars

Ends(q) == EdgeEnds(q)
NormalOf(gr, q) == \* <<0,0>>: undefined
    IF q[1] = 0 THEN (IF GradAt(gr, <<q[2], q[3]>>) = <<0, 0>> THEN <<0, 0>> ELSE Unit(GradAt(gr, <<q[2], q[3]>>), 10000))
    ELSE LET p == Ends(q)[1] r == Ends(q)[2] gp == GradAt(gr, p) gq == GradAt(gr, r)
             d == CutFrac(gr, q, 6)
         IN CASE gp = <<0, 0>> /\ gq = <<0, 0>> -> <<0, 0>>
              [] gp = <<0, 0>> -> Unit(gq, 10000)
              [] gq = <<0, 0>> -> Unit(gp, 10000)
              [] OTHER -> LET v == Average(gp, d, gq, 1000000 - d) IN IF v = <<0, 0>> THEN v ELSE Unit(v, 10000)
N == NormalOf(g, k)
\* When the two nodal directions nearly cancel, the rounding of this integer model decides; left out.
Firm(gr, q) == q[1] = 0 \/ LET gp == GradAt(gr, Ends(q)[1]) gq == GradAt(gr, Ends(q)[2]) d == CutFrac(gr, q, 6) IN
                           gp = <<0, 0>> \/ gq = <<0, 0>> \/ MaxAbs(Average(gp, d, gq, 1000000 - d)) > 400000000
UnitOrNone == pc = "point" => N = <<0, 0>> \/ AbsV(N[1] * N[1] + N[2] * N[2] - 100000000) <= 60000
IsPlane == \E a, b \in -3..3, c \in -6..6 : phi = Plane(a, b, c)
PlaneExact == pc = "point" => \A a, b \in -3..3 : (phi = Plane(a, b, phi[1]) /\ <<a, b>> # <<0, 0>>) =>
                  AbsV(N[1] - Unit(<<a, b>>, 10000)[1]) <= 15 /\ AbsV(N[2] - Unit(<<a, b>>, 10000)[2]) <= 15
ScaleFree == pc = "point" /\ Firm(g, k) => LET m == NormalOf(G([i \in 1..n |-> 7 * phi[i]]), k) IN AbsV(m[1] - N[1]) <= 15 /\ AbsV(m[2] - N[2]) <= 15
Negated == pc = "point" /\ Firm(g, k) => LET m == NormalOf(G([i \in 1..n |-> -phi[i]]), k) IN AbsV(m[1] + N[1]) <= 15 /\ AbsV(m[2] + N[2]) <= 15
=============================================================================
