-------------------------------- MODULE Locate --------------------------------
(* Point location on a w x h mesh.  Points are on a lattice of S positions per unit length.      *)
(* Contains / Nearest is what a user relies on; ElementOf / NodeOf is how the code does it: step *)
(* back by a small amount (less than one lattice step), enforce the lower bound, take the floor; *)
(* then choose the quadrant of the element the point lies in.                                    *)
EXTENDS Integers, FiniteSets

\* Cell c = <<cx, cy>>, point p = <<px, py>> in units of 1/s, tolerance t in the same units.
Contains(s, w, h, c, p, t) ==
    /\ c[1] \in 0..w-1 /\ c[2] \in 0..h-1
    /\ s * c[1] - t <= p[1] /\ p[1] <= s * (c[1] + 1) + t
    /\ s * c[2] - t <= p[2] /\ p[2] <= s * (c[2] + 1) + t
\* On a grid the nearest node is nearest along each axis.
Nearest(s, w, h, n, p, t) ==
    /\ n[1] \in 0..w /\ n[2] \in 0..h
    /\ 2 * (p[1] - s * n[1]) <= s + 2 * t /\ 2 * (s * n[1] - p[1]) <= s + 2 * t
    /\ 2 * (p[2] - s * n[2]) <= s + 2 * t /\ 2 * (s * n[2] - p[2]) <= s + 2 * t

CONSTANTS S, MaxW, MaxH
VARIABLES w, h, p, cell, node, pc
vars == <<w, h, p, cell, node, pc>>

Init == /\ w \in 1..MaxW /\ h \in 1..MaxH /\ p \in (0..S*w) \X (0..S*h)
        /\ pc = "start" /\ cell = <<-1, -1>> /\ node = <<-1, -1>>
Back(x) == IF x = 0 THEN 0 ELSE x - 1     \* largest lattice point not above x - epsilon
FindElement == /\ pc = "start" /\ pc' = "element"
               /\ cell' = <<Back(p[1]) \div S, Back(p[2]) \div S>>
               /\ UNCHANGED <<w, h, p, node>>
FindNode == /\ pc = "element" /\ pc' = "done"
            /\ node' = << IF 2 * p[1] - S * (2 * cell[1] + 1) < 0 THEN cell[1] ELSE cell[1] + 1,
                          IF 2 * p[2] - S * (2 * cell[2] + 1) < 0 THEN cell[2] ELSE cell[2] + 1 >>
            /\ UNCHANGED <<w, h, p, cell>>
Next == FindElement \/ FindNode
Spec == Init /\ [][Next]_vars

D2(n) == (p[1] - S * n[1]) * (p[1] - S * n[1]) + (p[2] - S * n[2]) * (p[2] - S * n[2])
ElementContains == pc # "start" => Contains(S, w, h, cell, p, 0)
NodeNearest == pc = "done" => /\ Nearest(S, w, h, node, p, 0)
                              /\ \A x \in 0..w, y \in 0..h : D2(node) <= D2(<<x, y>>)
=============================================================================
