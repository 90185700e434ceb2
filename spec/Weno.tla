--------------------------------- MODULE Weno ---------------------------------
(* The derivative rule by itself: all lines of 2..W + 1 nodes with values in Vals, every node.  The      *)
(* behaviour computes the two one-sided derivatives and then the upwind contribution of the line.     *)
EXTENDS WenoOps, FiniteSets
CONSTANTS W, Top
Vals == 0..Top
VARIABLES f, i, r, le
vars == <<f, i, r, le>>
None == 2000000000
Init == f \in UNION {[1..(n + 1) -> Vals] : n \in 1..W} /\ i \in 0..(Len(f) - 1) /\ r = None /\ le = None
DoRight == r = None /\ r' = Weno(Right(f, i), 1, 0) /\ UNCHANGED <<f, i, le>>
DoLeft == r # None /\ le = None /\ le' = Weno(Left(f, i), 1, 0) /\ UNCHANGED <<f, i, r>>
Stop == le # None /\ UNCHANGED vars
Spec == Init /\ [][DoRight \/ DoLeft \/ Stop]_vars
Last == Len(f) - 1
Mirror == [k \in 1..Len(f) |-> f[Len(f) + 1 - k]]
Minus == [k \in 1..Len(f) |-> -f[k]]
N(a, b, t) == a - b <= t /\ b - a <= t
\* Mirrored lines have mirrored derivatives, negated lines negated ones.
Mirrored == /\ r # None => N(Weno(Left(Mirror, Last - i), 1, 0), -r, 2)
            /\ le # None => N(Weno(Right(Mirror, Last - i), 1, 0), -le, 2)
Odd == r # None => N(Weno(Right(Minus, i), 1, 0), -r, 2)
\* Adding a constant changes nothing.
Shifted == r # None => Weno(Right([k \in DOMAIN f |-> f[k] + 7], i), 1, 0) = r
\* The derivative is a mean of its candidates.
Lo(c) == Least(c)
Hi(c) == -Least([k \in 1..3 |-> -c[k]])
Mean == r # None => LET c == Cand(Right(f, i)) IN 6 * r >= 100000 * Lo(c) - 200 * (1 + AbsA(Lo(c))) /\ 6 * r <= 100000 * Hi(c) + 200 * (1 + AbsA(Hi(c)))
\* On straight pieces wide enough for one candidate the derivative is exact, however rough the rest is.
StraightExact == r # None => LET v == Right(f, i) IN
    (\E k \in 1..3 : v[k] = v[k + 1] /\ v[k + 1] = v[k + 2]) => N(r, 100000 * v[3], 60)
\* At an end of the line nothing beyond it is known: there the outward derivative is the last difference.
EndsOneSided == (r # None /\ i = Last) => N(r, 100000 * (f[Len(f)] - f[Len(f) - 1]), 60)
\* With ideal weights the rule is exact for polynomials of degree five (differences of x^k at the node).
RECURSIVE Pow(_, _)
Pow(x, k) == IF k = 0 THEN 1 ELSE x * Pow(x, k - 1)
PolyDiff(k, p) == Pow(p + 1, k) - Pow(p, k)
IdealSum(v) == LET c == Cand(v) IN Ideal[1]*c[1] + Ideal[2]*c[2] + Ideal[3]*c[3]
FifthOrder == \A k \in 1..5 :
    /\ IdealSum(<<PolyDiff(k, 2), PolyDiff(k, 1), PolyDiff(k, 0), PolyDiff(k, -1), PolyDiff(k, -2)>>) = IF k = 1 THEN 60 ELSE 0
    /\ IdealSum(<<PolyDiff(k, -3), PolyDiff(k, -2), PolyDiff(k, -1), PolyDiff(k, 0), PolyDiff(k, 1)>>) = IF k = 1 THEN 60 ELSE 0
CandidatesThird == \A k \in 1..3 : LET c == Cand(<<PolyDiff(k, 2), PolyDiff(k, 1), PolyDiff(k, 0), PolyDiff(k, -1), PolyDiff(k, -2)>>) IN
    \A q \in 1..3 : c[q] = IF k = 1 THEN 6 ELSE 0
ASSUME FifthOrder /\ CandidatesThird
WeightsSum == r # None => LET w == Weights(Right(f, i), 1, 0) IN N(w[1] + w[2] + w[3], 1000000, 2) /\ \A q \in 1..3 : w[q] >= 0
=============================================================================
