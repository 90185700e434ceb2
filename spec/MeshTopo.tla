------------------------------- MODULE MeshTopo -------------------------------
(* Fixed grid mesh of w x h unit elements.  The geometric meaning of the topology (what a user  *)
(* relies on) is given first; the state machine below builds the mesh the way the code does     *)
(* (periodic index arithmetic that is then flagged out of bounds, reverse connectivity appended *)
(* element by element) and is checked against the geometry for every mesh up to MaxW x MaxH.    *)
EXTENDS Integers, Sequences, FiniteSets

---------------------------------------------------------------------------
\* Geometry.
Pos(w, h) == (0..w) \X (0..h)
Cells(w, h) == (0..w-1) \X (0..h-1)
InMesh(w, h, p) == p[1] >= 0 /\ p[1] <= w /\ p[2] >= 0 /\ p[2] <= h
\* Neighbours in the documented order: left, right, down, up.
Dir == << <<-1, 0>>, <<1, 0>>, <<0, -1>>, <<0, 1>> >>
Step(p, j) == <<p[1] + Dir[j][1], p[2] + Dir[j][2]>>
Opposite(j) == CASE j = 1 -> 2 [] j = 2 -> 1 [] j = 3 -> 4 [] j = 4 -> 3
\* Corners of a cell, anticlockwise from bottom left.
Corner(c, k) == CASE k = 1 -> c [] k = 2 -> <<c[1] + 1, c[2]>> [] k = 3 -> <<c[1] + 1, c[2] + 1>> [] k = 4 -> <<c[1], c[2] + 1>>
Corners(c) == {Corner(c, k) : k \in 1..4}
CellsAt(w, h, p) == {c \in {p[1] - 1, p[1]} \X {p[2] - 1, p[2]} : c[1] \in 0..w-1 /\ c[2] \in 0..h-1 /\ p \in Corners(c)}
OnEdge(w, h, p) == p[1] = 0 \/ p[1] = w \/ p[2] = 0 \/ p[2] = h

---------------------------------------------------------------------------
\* The construction.
CONSTANTS MaxW, MaxH
VARIABLES w, h, pc, i, nbr, elNodes, nodeEls
vars == <<w, h, pc, i, nbr, elNodes, nodeEls>>

NNodes == (w + 1) * (h + 1)
NElements == w * h
PosOf(n) == <<n % (w + 1), n \div (w + 1)>>

Init == /\ w \in 1..MaxW /\ h \in 1..MaxH
        /\ pc = "nodes" /\ i = 0
        /\ nbr = [n \in {} |-> <<>>] /\ elNodes = [e \in {} |-> <<>>]
        /\ nodeEls = [n \in 0..(w + 1) * (h + 1) - 1 |-> <<>>]

AddNode ==
    /\ pc = "nodes"
    /\ LET x == i % (w + 1)  y == i \div (w + 1)  ww == w + 1  hh == h + 1
           per == << ((x - 1 + ww) % ww) + (y * ww), ((x + 1 + ww) % ww) + (y * ww),
                     x + (ww * ((y - 1 + hh) % hh)), x + (ww * ((y + 1 + hh) % hh)) >>
           flag(j) == \/ (j = 1 /\ x = 0) \/ (j = 2 /\ x = w /\ x # 0)
                      \/ (j = 3 /\ y = 0) \/ (j = 4 /\ y = h /\ y # 0)
           me == [j \in 1..4 |-> IF flag(j) THEN NNodes ELSE per[j]]
       IN nbr' = [n \in DOMAIN nbr \cup {i} |-> IF n = i THEN me ELSE nbr[n]]
    /\ IF i + 1 < NNodes THEN i' = i + 1 /\ pc' = pc ELSE i' = 0 /\ pc' = "elements"
    /\ UNCHANGED <<w, h, elNodes, nodeEls>>

AddElement ==
    /\ pc = "elements"
    /\ LET x == i % w  y == i \div w  ww == w + 1
           me == << x + y * ww, x + 1 + y * ww, x + 1 + (y + 1) * ww, x + (y + 1) * ww >>
       IN /\ elNodes' = [e \in DOMAIN elNodes \cup {i} |-> IF e = i THEN me ELSE elNodes[e]]
          /\ nodeEls' = [n \in DOMAIN nodeEls |-> IF \E k \in 1..4 : me[k] = n THEN Append(nodeEls[n], i) ELSE nodeEls[n]]
    /\ IF i + 1 < NElements THEN i' = i + 1 /\ pc' = pc ELSE i' = 0 /\ pc' = "done"
    /\ UNCHANGED <<w, h, nbr>>

Next == AddNode \/ AddElement
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
\* Properties of the construction.
NeighboursRight == \A n \in DOMAIN nbr : \A j \in 1..4 :
    IF InMesh(w, h, Step(PosOf(n), j)) THEN nbr[n][j] < NNodes /\ PosOf(nbr[n][j]) = Step(PosOf(n), j)
    ELSE nbr[n][j] = NNodes
NeighboursSymmetric == \A n \in DOMAIN nbr : \A j \in 1..4 :
    nbr[n][j] \in DOMAIN nbr => nbr[nbr[n][j]][Opposite(j)] = n
CornersRight == \A e \in DOMAIN elNodes : \A k \in 1..4 : PosOf(elNodes[e][k]) = Corner(<<e % w, e \div w>>, k)
ReverseRight == pc = "done" => \A n \in DOMAIN nodeEls :
    /\ {<<e % w, e \div w>> : e \in {nodeEls[n][k] : k \in DOMAIN nodeEls[n]}} = CellsAt(w, h, PosOf(n))
    /\ Len(nodeEls[n]) = Cardinality(CellsAt(w, h, PosOf(n)))
    /\ Len(nodeEls[n]) \in {1, 2, 4}
    /\ Len(nodeEls[n]) < 4 <=> OnEdge(w, h, PosOf(n))
=============================================================================
