------------------------------- MODULE MeshTrace -------------------------------
(* C01.  One record per node / element / mesh of a real mesh, checked against the geometry of    *)
(* MeshTopo.  Records carry the coordinates of every entity they refer to, so no index layout    *)
(* is assumed.                                                                                   *)
EXTENDS TraceBase
MT == INSTANCE MeshTopo WITH MaxW <- 1, MaxH <- 1, w <- 1, h <- 1, pc <- "done", i <- 0, nbr <- <<>>, elNodes <- <<>>, nodeEls <- <<>>

Init == TBInit
Next == (Advance /\ Trace[l + 1].ev \in {"mesh", "node", "elem"}) \/ TBDone
Spec == Init /\ [][Next]_<<l, hi, on>>

IsEv(e) == on /\ Rec.ev = e
\* Positions are logged times 4 (a wrong fraction cannot round to a right position).
P4(p) == <<4 * p[1], 4 * p[2]>>

SizesRight == IsEv("mesh") => LET r == Rec IN
    /\ r.width = r.w /\ r.height = r.h
    /\ r.nNodes = (r.w + 1) * (r.h + 1) /\ r.nodesSize = r.nNodes
    /\ r.nElements = r.w * r.h /\ r.elementsSize = r.nElements
LookupRight == IsEv("mesh") => LET r == Rec IN
    /\ r.lookupW = r.w + 1 /\ r.lookupH = r.h + 1
    /\ r.lookupBad = 0        \* entries (x,y) whose node is not at (x,y)
    /\ r.lookupDistinct = (r.w + 1) * (r.h + 1)
NodePos(r) == <<r.c4[1] \div 4, r.c4[2] \div 4>>
NodeInMesh == IsEv("node") => MT!InMesh(Rec.w, Rec.h, NodePos(Rec)) /\ Rec.c4 = P4(NodePos(Rec))
LookupSelf == IsEv("node") => Rec.lookup = Rec.id
NeighboursRight == IsEv("node") => LET r == Rec IN \A j \in 1..4 :
    LET q == MT!Step(NodePos(r), j) IN
    IF MT!InMesh(r.w, r.h, q) THEN r.nbr[j] \in 0..r.nNodes-1 /\ r.nbrC4[j] = P4(q) ELSE r.nbr[j] = r.nNodes
NeighboursSymmetric == IsEv("node") => \A j \in 1..4 : Rec.nbr[j] # Rec.nNodes => Rec.nbrBack[j] = Rec.id
DomainFlag == IsEv("node") => (Rec.isDomain = MT!OnEdge(Rec.w, Rec.h, NodePos(Rec)))
Unmasked == IsEv("node") => ~Rec.isMasked
ReverseRight == IsEv("node") => LET r == Rec IN
    /\ r.nEls = Cardinality(MT!CellsAt(r.w, r.h, NodePos(r)))
    /\ Len(r.elC4) = r.nEls
    /\ Range(r.elC4) = {<<4 * c[1] + 2, 4 * c[2] + 2>> : c \in MT!CellsAt(r.w, r.h, NodePos(r))}
ElementInMesh == IsEv("elem") => LET c == NodePos(Rec) IN Rec.c4 = <<4 * c[1] + 2, 4 * c[2] + 2>> /\ c[1] \in 0..(Rec.w - 1) /\ c[2] \in 0..(Rec.h - 1)
CornersRight == IsEv("elem") => LET r == Rec IN \A k \in 1..4 :
    r.corners4[k] = P4(MT!Corner(<<r.c4[1] \div 4, r.c4[2] \div 4>>, k))
EachOnce == IsEv("mesh") => Rec.distinctNodes = Rec.nNodes /\ Rec.distinctElements = Rec.nElements
=============================================================================
