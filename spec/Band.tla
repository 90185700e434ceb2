---------------------------------- MODULE Band ----------------------------------
(* Design of the band life cycle (C07, C08, C24) in one dimension: a field over nodes 0..L with one   *)
(* contour at position c (units: 1/U of a cell).  An update moves the band by less than a cell, at    *)
(* most S; the field is rebuilt when a mine comes within one cell of the contour.  The contour never  *)
(* gets out of the band, so that the sign of every node stays right although only the band is         *)
(* updated.  Trigger is the distance at which a mine goes off; TLC refutes a later one.  Masking       *)
(* nodes beyond the contour rebuilds the band without them.                                           *)
EXTENDS Integers, FiniteSets
CONSTANTS L, BW, Fixed, U, S, Trigger, Masks
VARIABLES c, phi, band, mines, masked
vars == <<c, phi, band, mines, masked>>
N == 0..L
A(x) == IF x < 0 THEN -x ELSE x
Dist(cc) == [i \in N |-> U * i - cc]
Edge(i) == i = 0 \/ i = L
BandFor(p, m) == {i \in N : A(p[i]) < U * BW /\ i \notin m /\ ~(Fixed /\ Edge(i))}
MinesFor(p, m) == {i \in BandFor(p, m) : A(p[i]) >= U * (BW - 1)}
Room(cc, m) == cc \in (U + 1)..(U * (L - 1) - 1) /\ \A i \in m : U * i > cc + U
Init == /\ masked = {} /\ c \in (U + 1)..(U * (L - 1) - 1) /\ phi = Dist(c)
        /\ band = BandFor(phi, {}) /\ mines = MinesFor(phi, {})
Build == phi' = Dist(c') /\ band' = BandFor(phi', masked') /\ mines' = MinesFor(phi', masked')
Update == \E s \in (-S)..S :
    /\ Room(c - s, masked)
    /\ c' = c - s /\ UNCHANGED masked
    /\ LET p == [i \in N |-> IF i \in band THEN phi[i] + s ELSE phi[i]]
       IN IF \E i \in mines : A(p[i]) < Trigger THEN Build
          ELSE phi' = p /\ UNCHANGED <<band, mines>>
Rebuild == UNCHANGED <<c, masked>> /\ Build
Mask == \E k \in Masks : masked' = masked \cup {i \in N : i >= k} /\ Room(c, masked') /\ UNCHANGED c /\ Build
Next == Update \/ Rebuild \/ Mask
Spec == Init /\ [][Next]_vars
SidesRight == \A i \in N : IF U * i > c THEN phi[i] > 0 ELSE IF U * i < c THEN phi[i] < 0 ELSE phi[i] = 0
ContourInBand == \A i \in 0..(L - 1) : (U * i <= c /\ c <= U * (i + 1)) =>
    \A n \in {i, i + 1} : n \in band \/ n \in masked \/ (Fixed /\ Edge(n))
BandWellFormed == mines \subseteq band /\ masked \cap band = {}
=============================================================================
