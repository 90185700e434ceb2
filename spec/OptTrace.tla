------------------------------- MODULE OptTrace -------------------------------
(* C20.  One record per solve: the instance, the problem handed to the numerical solver (a stand-in    *)
(* that evaluates every function at several points and then gives an arbitrary answer within the       *)
(* bounds), and what came back.  Multipliers handed over are q/8 of their bounds.  Units: bounds,       *)
(* functions and gradients 10^-5; multipliers, displacements and time step 10^-6.                       *)
EXTENDS TraceBase, OptOps
Init == TBInit
Next == Advance \/ TBDone
Spec == Init /\ [][Next]_<<l, hi, on>>
R == Rec
Solved == on /\ R.ev = "solve"
\* Sets of active constraints that are possible; functions of the problem in order.
Sets == {A \in Final(R, Cons(R)) : Cardinality(A) = R.n - 1}
RECURSIVE Sorted(_)
Sorted(A) == IF A = {} THEN <<>> ELSE LET m == CHOOSE a \in A : \A b \in A : a <= b IN <<m>> \o Sorted(A \ {m})
Fns(A) == <<0>> \o Sorted(A)
Val(A, q) == LET F == Fns(A) IN [f \in A \cup {0} |-> LET k == CHOOSE k \in 1..Len(F) : F[k] = f IN Lambda(R, f, q[k])]
SqMax(f) == MaxS(R, f) * MaxS(R, f)
BoundOf(f) == Ratio(R.D * Gram(R, f, f), 512 * SqMax(f), 5)

RightConstraints == Solved => \E A \in Sets : LET F == Fns(A) IN
    Len(R.eqs) = R.n - 1 /\ \A k \in 1..Len(R.eqs) : R.eqs[k] = R.eq[F[k + 1]]
ProblemOptions == Solved => R.isMax = R.wantMax /\ R.alg = R.wantAlg
Bounds == Solved => \E A \in Sets : LET F == Fns(A) IN \A k \in 1..R.n : LET b == BoundOf(F[k]) IN
    /\ Near(R.hi[k], b, 1 + b \div 10000) /\ Near(R.lo[k], -b, 1 + b \div 10000)
StartsInBounds == Solved => \A k \in 1..R.n : R.lo[k] - 1 <= R.x0[k] /\ R.x0[k] <= R.hi[k] + 1
\* The first guess is the caller's, made smaller where it is out of bounds (first: in tenths).
FirstGuess == Solved => \E A \in Sets : LET F == Fns(A) IN \A k \in 1..R.n :
    LET f == F[k] b == BoundOf(f)
        g == SRatio(R.first[f + 1] * Gram(R, f, f), 80 * MaxS(R, f), 5)
    IN \/ AbsA(g) <= b + 2 + b \div 10000 /\ Near(R.x0[k], g, 2 + AbsA(g) \div 10000)
       \/ AbsA(g) >= b - 2 - b \div 10000 /\ (R.x0[k] < 0) = (g < 0) /\ AbsA(R.x0[k]) >= b - b \div 10 - 2 - b \div 10000
\* Values of the functions: scale factor times (change - target).
Value(A, f, lam) == SRatio(MaxS(R, f) * (Change(R, f, lam) - (IF f = 0 THEN 0 ELSE Target(R, f, A))), Gram(R, f, f) * U, 5)
Functions == Solved => \E A \in Sets : LET F == Fns(A) IN \A s \in 1..Len(R.samples) :
    LET lam == Val(A, R.samples[s].q) IN
    \A k \in 1..R.n : LET v == Value(A, F[k], lam) IN Near(R.samples[s].f[k], v, 3 + AbsA(v) \div 10000)
Gradients == Solved => \E A \in Sets : LET F == Fns(A) IN \A s \in 1..Len(R.samples) : \A k, j \in 1..R.n :
    LET g == SRatio(8 * MaxS(R, F[k]) * MaxS(R, F[j]) * Gram(R, F[k], F[j]), Gram(R, F[k], F[k]) * Gram(R, F[j], F[j]), 5) IN
    Near(R.samples[s].g[k][j], g, 2 + AbsA(g) \div 10000)
\* What comes back.
Micro(x) == (x * 3125) \div 96                                        \* 1/30720 -> 10^-6
Num(lam) == IF TooFar(R, lam) THEN R.D * 480 ELSE 1
Den(lam) == IF TooFar(R, lam) THEN Largest(R, lam) ELSE 1
Scaled(x, lam) == IF TooFar(R, lam) THEN (SRatio(x, Den(lam), 5) * R.D * 10) \div 64 ELSE Micro(x)
Multipliers == Solved => Len(R.lambdas) = Len(R.dist) + 1 /\ \E A \in Sets : LET lam == Val(A, R.answer) IN
    \A f \in {0} \cup Cons(R) : IF f \in DOMAIN lam THEN Near(R.lambdas[f + 1], Scaled(lam[f], lam), 40) ELSE R.lambdas[f + 1] = 0
TimeStep == Solved => Near(R.step, AbsA(R.lambdas[1]), 1)
Displacements == Solved => Len(R.moves) = Len(R.pts) /\ \E A \in Sets : LET lam == Val(A, R.answer) IN \A i \in 1..Len(R.pts) :
    LET d == Scaled(RawDisp(R, i, lam), lam)
        e == IF R.pts[i].dom /\ ~R.pts[i].fixed THEN Max2(d, Micro(R.pts[i].neg * 480)) ELSE d
    IN Near(R.moves[i], e, 40)
\* The guarantees, on the answer itself.
WithinMaximum == Solved => \A i \in 1..Len(R.pts) : AbsA(R.moves[i]) <= Micro(R.D * 480) + 2
InsideDomain == Solved => \A i \in 1..Len(R.pts) : R.pts[i].dom => R.moves[i] >= Micro(R.pts[i].neg * 480) - 2
FixedStay == Solved => \A i \in 1..Len(R.pts) : R.pts[i].fixed => R.moves[i] = 0
\* The change of the objective reported, where no side limit cuts in.
NoClip(lam) == \A i \in Free(R) : R.pts[i].dom => RawDisp(R, i, lam) >= R.pts[i].neg * 480
ObjectiveChange == Solved => \E A \in Sets : LET lam == Val(A, R.answer) IN
    NoClip(lam) => LET v == SRatio(Change(R, 0, lam), 8 * U, 3)
                       e == IF TooFar(R, lam) THEN (v * Ratio(Num(lam), Den(lam), 4)) \div 1000 ELSE v * 10
                   IN Near(R.change, e, 25 + AbsA(e) \div 2000)
NothingElse == Solved => R.rest = R.restAfter
CodeReported == on => R.said = (IF R.code > 0 THEN "Success" ELSE IF R.code < 0 THEN "Failed" ELSE "No")
=============================================================================
