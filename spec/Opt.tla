--------------------------------- MODULE Opt ---------------------------------
(* One solve: constraints that cannot be violated are removed, the numerical solver answers anything   *)
(* within the bounds, displacements that are too large are scaled down together with the multipliers, *)
(* and everything is put back in place.  Rescale = FALSE is the design without the last safeguard.    *)
EXTENDS OptOps, TLC
CONSTANTS NC, Sens, Dists, Negs, Qs, Rescale
VARIABLES r, act, lam, num, den, pc
vars == <<r, act, lam, num, den, pc>>
Kinds == {[fixed |-> TRUE, dom |-> FALSE, neg |-> 0], [fixed |-> FALSE, dom |-> FALSE, neg |-> 0]} \cup {[fixed |-> FALSE, dom |-> TRUE, neg |-> -n] : n \in Negs}
SVecs == [1..(NC + 1) -> {s - 2 : s \in Sens}]
Pt(k, v, len) == [s |-> v, l |-> len, fixed |-> k.fixed, dom |-> k.dom, neg |-> k.neg]
Init == /\ \E k1 \in Kinds, k2 \in Kinds \ {[fixed |-> TRUE, dom |-> FALSE, neg |-> 0]}, v1 \in SVecs, v2 \in SVecs, ds \in [1..NC -> {d - 100 : d \in Dists}], e \in [1..NC -> BOOLEAN] :
              /\ r = [pts |-> <<Pt(k1, v1, 4), Pt(k2, v2, 8)>>, D |-> 32, dist |-> ds, eq |-> e]
              /\ WellPosed([pts |-> <<Pt(k1, v1, 4), Pt(k2, v2, 8)>>, D |-> 32, dist |-> ds, eq |-> e])
        /\ act = Cons(r) /\ lam = <<>> /\ num = 1 /\ den = 1 /\ pc = "reduce"
Reduce == /\ pc = "reduce"
          /\ LET g == MustGo(r, act) IN
             /\ act' = act \ g
             /\ pc' = IF g = {} THEN "solve" ELSE "reduce"
          /\ UNCHANGED <<r, lam, num, den>>
Solve == /\ pc = "solve" /\ pc' = "scale"
         /\ \E q \in [act \cup {0} -> {x - 8 : x \in Qs}] : q[0] # 0 /\ lam' = [f \in act \cup {0} |-> Lambda(r, f, q[f])]
         /\ UNCHANGED <<r, act, num, den>>
Scale == /\ pc = "scale" /\ pc' = "done"
         /\ IF Rescale /\ TooFar(r, lam) THEN num' = r.D * 480 /\ den' = Largest(r, lam) ELSE UNCHANGED <<num, den>>
         /\ UNCHANGED <<r, act, lam>>
Next == Reduce \/ Solve \/ Scale \/ (pc = "done" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
Done == pc = "done"
Clip(i, x, dd) == IF r.pts[i].dom /\ x < r.pts[i].neg * 480 * dd THEN r.pts[i].neg * 480 * dd ELSE x
Moved(i) == IF r.pts[i].fixed THEN 0 ELSE Clip(i, RawDisp(r, i, lam) * num, den)          \* displacement times den
WithinMaximum == Done => \A i \in 1..Len(r.pts) : AbsA(Moved(i)) <= r.D * 480 * den
InsideDomain == Done => \A i \in Free(r) : r.pts[i].dom => Moved(i) >= r.pts[i].neg * 480 * den
FixedStay == Done => \A i \in 1..Len(r.pts) : r.pts[i].fixed => Moved(i) = 0
Unclipped == \A i \in Free(r) : ~r.pts[i].dom
\* A constraint that was left out is not violated by any answer (where no side limit cuts the displacement).
LeftOutHolds == Done /\ Unclipped => \A c \in Cons(r) \ act :
    LET m == CHOOSE m \in {Change(r, c, lam)} : TRUE IN (m \div den) * num <= DistU(r, c)
EqualityKept == \A c \in Cons(r) : (r.eq[c] \/ r.dist[c] < 0) => c \in act
\* The order of elimination does not matter: the result is the one the operator of the trace specification allows.
ReductionAllowed == pc = "solve" => act \in Final(r, Cons(r))
\* A target is attainable: it lies within the changes possible.
TargetsAttainable == pc = "solve" => \A c \in act : LET t == Target(r, c, act) IN
    (r.dist[c] < 0 /\ MinChange(r, c, act) < 0 => t >= MinChange(r, c, act)) /\ (r.eq[c] /\ r.dist[c] >= 0 /\ MaxChange(r, c, act) > 0 => t <= MaxChange(r, c, act))
=============================================================================
