------------------------------ MODULE NoiseTrace ------------------------------
(* C18.  A record is one stochastic velocity extension; records of one case share a generator, so    *)
(* the stream of draws has to go on from one to the next (`used` counts the draws made).             *)
(* Units: lengths 10^-8, velocities and draws 10^-3, time step 10^-6.                                *)
EXTENDS TraceBase, NoiseOps
VARIABLES used
Call(r) == /\ r.ev = "noise"
           /\ (r.new \/ r.drawn = used)
           /\ used' = (IF r.new THEN r.drawn ELSE used) + Len(r.len)
Init == TBInit /\ used = 0
Next == \/ Advance /\ Call(Trace[l + 1])
        \/ TBDone /\ UNCHANGED used
Spec == Init /\ [][Next]_<<l, hi, on, used>>

ScaleReturned == on => Near(Rec.scale, Ratio(ScaleNum(Rec.t, Rec.d, Rec.c), ScaleDen(Rec.t, Rec.d, Rec.c), 3), 1)
StepDivided == on => Near(Rec.step, NewStep(Rec.t, Rec.d, Rec.c), 1)
StepUntouchedWhenSmall == on /\ ~TooLarge(Rec.t, Rec.d, Rec.c) /\ Rec.t * Rec.d # 4096 * Rec.c * Rec.c => Rec.stepWords = Rec.oldWords
\* Change of a velocity for a draw of z: prefactor / sqrt(length) * z.  A point at a time.
N == Prefactor(Rec.t, Rec.d, Rec.c)
SqrtLen(i) == Root(Rec.len[i])                        \* 10^-4
Change(n, q, z) == ((n * z) \div q) * 10              \* n z 10^-6 / (q 10^-4) in 10^-3
Fits(n, i, z) == LET q == SqrtLen(i) e == Change(n, q, z) IN Near(Rec.dv[i], e, 15 + (n * 6) \div q + AbsA(e) \div 500)
\* One standard normal draw per point, in point order: from a distribution of its own for each draw
\* or from the generator's standard normal.
NoiseFromDraws == on => LET n == N IN
    \/ \A i \in 1..Len(Rec.len) : Fits(n, i, Rec.za[i])
    \/ \A i \in 1..Len(Rec.len) : Fits(n, i, Rec.zb[i])
NoNoiseWhenCold == on /\ Rec.t = 0 => Rec.velBefore = Rec.velAfter
\* The nodal velocities are those of the ordinary extension of the velocities now on the points.
ExtensionOfNoisy == on => Len(Rec.nodal) = Len(Rec.ordinary) /\ \A i \in 1..Len(Rec.nodal) : Near(Rec.nodal[i], Rec.ordinary[i], 1)
NothingElse == on => Rec.restBefore = Rec.restAfter
=============================================================================
