--------------------------------- MODULE Evolve ---------------------------------
(* Design of an evolution (C25): the pieces of the other specifications put together on a line across  *)
(* a straight contour.  A uniform velocity is extended over the band (Extension: uniform stays         *)
(* uniform), the gradient is the upwind WENO rule with everything it sees (also nodes outside the band, *)
(* which stay behind), the band is advanced, and the field is rebuilt from the interpolated crossing    *)
(* when a mine is reached.  The crossing stays where the displacements say: to a thousandth of a cell   *)
(* per update while the contour keeps its direction, to a tenth otherwise (the nodes left behind at the *)
(* ends of the band disturb the gradient).  Values in 1/U of a cell; the material is on the side Up (1:  *)
(* right).  With Rebuild = FALSE the field is never rebuilt; TLC refutes that.                          *)
EXTENDS WenoOps, FiniteSets
CONSTANTS L, BW, U, Steps, Rebuild, Offsets, Cell, MaxSteps
VARIABLES f, c, up, band, mines, dir, n
vars == <<f, c, up, band, mines, dir, n>>
N == 0..L
Dist(cc, u) == [k \in 1..(L + 1) |-> u * (U * (k - 1) - cc)]
BandFor(p) == {i \in N : AbsA(p[i + 1]) < U * BW}
MinesFor(p) == {i \in BandFor(p) : AbsA(p[i + 1]) >= U * (BW - 1)}
Flat == [k \in 1..3 |-> 0]
\* dir: the direction of every displacement (0: any).
Init == /\ c \in {U * Cell + o : o \in Offsets} /\ up \in {-1, 1} /\ dir \in {-1, 0, 1} /\ n = 0
        /\ f = Dist(c, up) /\ band = BandFor(f) /\ mines = MinesFor(f)
\* The gradient in 10^-5 cells per cell.
Grad(i, s) == Length4(Parts(f, Flat, i, 1, s, 1, 0)) \div U
\* The nodes before a contour, and where the straight line to the next one is zero.
Before(p) == {i \in N : i < L /\ (p[i + 1] = 0 \/ p[i + 1] * p[i + 2] < 0)}
Crossing(p, i) == LET a == AbsA(p[i + 1]) b == AbsA(p[i + 2]) IN IF a = 0 THEN U * i ELSE U * i + SRatio(a * U, a + b, 0)
Update == \E q \in Steps, s \in (IF dir = 0 THEN {-1, 1} ELSE {dir}) :      \* q: displacement; s = 1: towards the material
    /\ n < MaxSteps /\ n' = n + 1
    /\ c' = c + up * s * q
    /\ LET p == [k \in 1..(L + 1) |-> IF k - 1 \in band THEN f[k] - SRatio(s * q * Grad(k - 1, s), 100000, 0) ELSE f[k]] IN
       IF Rebuild /\ \E i \in mines : AbsA(p[i + 1]) < U
       THEN \E i \in Before(p) : f' = Dist(Crossing(p, i), up) /\ band' = BandFor(f') /\ mines' = MinesFor(f')
       ELSE f' = p /\ UNCHANGED <<band, mines>>
    /\ UNCHANGED <<up, dir>>
Spec == Init /\ [][Update]_vars
Off(i) == AbsA(Crossing(f, i) - c)
OneContour == Cardinality(Before(f)) = 1
WhereItShould == \A i \in Before(f) : Off(i) <= n + (n * U) \div 10
WhereItShouldSteady == dir # 0 => \A i \in Before(f) : Off(i) <= 1 + n
InTheBand == \A i \in Before(f) : i \in band /\ i + 1 \in band
=============================================================================
