------------------------------- MODULE SensTrace -------------------------------
(* C19.  "exact": one sensitivity on dyadic data (positions in 2^-14, normals 2^-6, displacement      *)
(* 2^-p, length m/2^q); "general": one on arbitrary data (positions 10^-6, displacement 1/dinv, length   *)
(* 10^-4); "ito": one correction of a whole boundary (positions, normals, lengths, changes 10^-4);      *)
(* "itofine": one with a small displacement, the perimeter differences taken from the perimeter query   *)
(* (10^-9, lengths 10^-3); "itols": the form that takes a level set.                                   *)
EXTENDS TraceBase, SensOps
Init == TBInit
Next == Advance \/ TBDone
Spec == Init /\ [][Next]_<<l, hi, on>>
Is(e) == on /\ Rec.ev = e
RECURSIVE Two(_)
Two(k) == IF k = 0 THEN 1 ELSE 2 * Two(k - 1)

\* The function is called at the two displaced points and nowhere else, with nothing else changed.
Plus(r)  == Displaced(r.at, r.n, Two(8 - r.p), 1)
Minus(r) == Displaced(r.at, r.n, Two(8 - r.p), -1)
CalledAtDisplaced ==
    /\ Is("exact") => Range(Rec.calls) = {Plus(Rec), Minus(Rec)}
    /\ Is("general") => /\ Len(Rec.calls) >= 1
                        /\ \A c \in Range(Rec.calls) : \E s \in {1, -1} : \A k \in 1..2 : Near(c[k], Rec.at[k] + s * SRatio(Rec.n[k], Rec.dinv, 0), 2)
                        /\ \A s \in {1, -1} : \E c \in Range(Rec.calls) : \A k \in 1..2 : Near(c[k], Rec.at[k] + s * SRatio(Rec.n[k], Rec.dinv, 0), 2)
OthersUnchangedInCall == (Is("exact") \/ Is("general")) => \A q \in Range(Rec.seen) : q = Rec.other
PointRestored == (Is("exact") \/ Is("general")) => Rec.after = Rec.before /\ Rec.otherAfter = Rec.other
\* Central difference per unit length.
CentralDifference ==
    /\ Is("exact") => Near(Rec.sens, SRatio((Rec.f1 - Rec.f2) * Two(Rec.p + Rec.q - 1), Rec.m, 3), 1)
    /\ Is("general") => LET e == SRatio((Rec.f1 - Rec.f2) * Rec.dinv, 2 * Rec.len, 6) IN Near(Rec.sens, e, 2 + AbsA(e) \div Rec.len)
\* The Ito correction of each point.
Spread(r, i, s) == <<r.at[i][1] + s * SRatio(r.n[i][1], r.dinv, 0), r.at[i][2] + s * SRatio(r.n[i][2], r.dinv, 0)>>
Nbs(r, i) == [k \in 1..Len(r.nb[i]) |-> r.at[r.nb[i][k]]]
\* Perimeter difference in half 10^-4, curvature and correction in 10^-4.
Diff2(r, i) == Perim2(Spread(r, i, 1), Nbs(r, i), Len(r.nb[i])) - Perim2(Spread(r, i, -1), Nbs(r, i), Len(r.nb[i]))
Unchanged(r, i) == r.off[i] = r.offAfter[i]
Ito == Is("ito") => \A i \in 1..Len(Rec.at) :
    Rec.len[i] >= 2000 =>
        \* T P / (4 delta len^2): T = t/16, 1/delta = dinv
        LET len3 == Rec.len[i] \div 10
            e == SRatio(Rec.t * Rec.dinv * Diff2(Rec, i), len3 * len3, 4)            \* x 128 * 10^6 / 10^4 ...
            tol == 6 + (Rec.t * Rec.dinv * 6 * 80) \div (len3 * (len3 \div 100)) + AbsA(Rec.d[i]) \div (len3 \div 8)
        IN Near(Rec.d[i], (e \div 128) * 100 + ((e % 128) * 100) \div 128, tol)
ItoFine == Is("itofine") => \A i \in 1..Len(Rec.dp) :
    Rec.len[i] >= 100 =>
        LET e == SRatio(Rec.t * Rec.dp[i], Rec.len[i] * Rec.len[i], 4) IN
        Near(Rec.d[i], (e * 5) \div 32, 3 + AbsA(Rec.d[i]) \div (Rec.len[i] \div 2))
OnlyObjectives == (Is("ito") \/ Is("itofine") \/ Is("itoline")) => Rec.off = Rec.offAfter
ColdDoesNothing == (Is("ito") \/ Is("itofine")) /\ Rec.t = 0 => Rec.all = Rec.allAfter
\* Neighbours on a line along the normal: displacing the point by s changes the perimeter by s times the sum of the
\* directions away from the neighbours, so the curvature is that sum / length, the correction T sum / (2 length^2).
SgnS(v) == IF v > 0 THEN 1 ELSE IF v < 0 THEN -1 ELSE 0
Away(r, i) == SumSeq([k \in 1..Len(r.nb[i]) |-> SgnS(r.x[i] - r.x[r.nb[i][k]])]) * r.n[i]
ItoLine == Is("itoline") => \A i \in 1..Len(Rec.x) :
    LET k == 2 * Rec.q[i] - 1 - Rec.j
        big == SRatio(Rec.t * Away(Rec, i) * Two(IF k > 0 THEN k ELSE 0), Rec.m[i] * Rec.m[i] * Two(IF k < 0 THEN -k ELSE 0), 3)
    IN Near(Rec.d[i], big, 1)
WithLevelSet == Is("itols") => Rec.one = Rec.two /\ Rec.lsBefore = Rec.lsAfter
=============================================================================
