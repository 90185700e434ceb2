-------------------------------- MODULE OptOps --------------------------------
(* The optimisation problem of the boundary displacements, in exact integers.  An instance r has      *)
(*   pts: sequence of points [s |-> sensitivities (objective first, integers of size up to 6),        *)
(*        l |-> length in 1/8, fixed, dom, neg |-> negative limit in 1/64],                           *)
(*   D |-> maximum displacement in 1/64, dist |-> constraint distances in 1/64, eq |-> equality?      *)
(* A multiplier is a fraction q/8 of its limit D / max|s|; displacements are in units of 1/30720.     *)
EXTENDS Arith, FiniteSets
U == 30720
Free(r) == {i \in 1..Len(r.pts) : ~r.pts[i].fixed}
S(r, i, f) == r.pts[i].s[f + 1]                       \* f = 0: objective
Cons(r) == 1..Len(r.dist)
MaxS(r, f) == LET M == {AbsA(S(r, i, f)) : i \in Free(r)} IN CHOOSE m \in M : \A k \in M : k <= m
RECURSIVE SumG(_, _, _, _)
SumG(r, f, g, I) == IF I = {} THEN 0 ELSE LET i == CHOOSE i \in I : TRUE IN S(r, i, f) * S(r, i, g) * r.pts[i].l + SumG(r, f, g, I \ {i})
\* Sum over the free points of s_f s_g l, in 1/8.
Gram(r, f, g) == SumG(r, f, g, Free(r))
WellPosed(r) == Free(r) # {} /\ \A f \in {0} \cup Cons(r) : MaxS(r, f) > 0
Lambda(r, f, q) == q * r.D * (60 \div MaxS(r, f))     \* multiplier q/8 of the limit (60 / MaxS is an integer)
RECURSIVE SumD(_, _, _, _)
SumD(r, i, F, lam) == IF F = {} THEN 0 ELSE LET f == CHOOSE f \in F : TRUE IN lam[f] * S(r, i, f) + SumD(r, i, F \ {f}, lam)
\* Displacement of point i for multipliers lam (a function on the set of functions), before and after the side limit.
RawDisp(r, i, lam) == IF r.pts[i].fixed THEN 0 ELSE SumD(r, i, DOMAIN lam, lam)
Disp(r, i, lam) == LET d == RawDisp(r, i, lam) IN
                   IF ~r.pts[i].fixed /\ r.pts[i].dom /\ d < r.pts[i].neg * 480 THEN r.pts[i].neg * 480 ELSE d
RECURSIVE SumC(_, _, _, _)
SumC(r, f, lam, I) == IF I = {} THEN 0 ELSE LET i == CHOOSE i \in I : TRUE IN Disp(r, i, lam) * S(r, i, f) * r.pts[i].l + SumC(r, f, lam, I \ {i})
\* Change of function f, in 1/(8 U).
Change(r, f, lam) == SumC(r, f, lam, Free(r))
DistU(r, c) == r.dist[c] * 3840                       \* a distance in 1/(8 U)
\* Changes at the corners of the box of multipliers of the functions in F.
Corners(r, F) == {[f \in F |-> Lambda(r, f, IF f \in N THEN -8 ELSE 8)] : N \in SUBSET F}
MaxChange(r, c, A) == LET M == {Change(r, c, v) : v \in Corners(r, A \cup {0})} IN CHOOSE m \in M : \A k \in M : k <= m
MinChange(r, c, A) == LET M == {Change(r, c, v) : v \in Corners(r, A \cup {0})} IN CHOOSE m \in M : \A k \in M : k >= m
Slack(r, c) == ~r.eq[c] /\ r.dist[c] >= 0
\* Constraints that have to go, and those close enough to the limit for the margin of one per cent to decide.
MustGo(r, A) == {c \in A : Slack(r, c) /\ DistU(r, c) > MaxChange(r, c, A)}
MayGo(r, A) == {c \in A : Slack(r, c) /\ c \notin MustGo(r, A) /\ DistU(r, c) >= (MaxChange(r, c, A) \div 100) * 98}
\* The sets of active constraints the elimination may end with.
RECURSIVE Final(_, _)
Final(r, A) == UNION {IF D = {} THEN {A} ELSE Final(r, A \ D) : D \in {MustGo(r, A) \cup X : X \in SUBSET MayGo(r, A)}}
\* Target of an active constraint: its distance, or 99% of the largest change that is possible when that is not enough.
Part(x) == (x \div 100) * 99 + ((x % 100) * 99) \div 100
Target(r, c, A) == LET mn == Part(MinChange(r, c, A)) mx == Part(MaxChange(r, c, A)) d == DistU(r, c) IN
                   IF d < 0 THEN (IF d < mn THEN mn ELSE d) ELSE IF r.eq[c] /\ d > mx THEN mx ELSE d
\* Rescaling by num/den when some displacement is too large.
Largest(r, lam) == LET M == {AbsA(Disp(r, i, lam)) : i \in Free(r)} IN CHOOSE m \in M : \A k \in M : k <= m
TooFar(r, lam) == Largest(r, lam) > r.D * 480
=============================================================================
