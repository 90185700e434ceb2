------------------------------- MODULE FMMTrace -------------------------------
(* C05.  The acceptance order of real reinitialisations (from the heap hook), one record per       *)
(* accepted node, replayed as Accept steps of FMM: a "start" record carries the field and the      *)
(* result, each "pop" record one acceptance, "end" closes the march.  "sym" records compare the     *)
(* results of a field and of its negated, mirrored or transposed image.                             *)
(* Values: result in 10^-4 (vals) and 10^-6 (out6), field as exact integers.                        *)
EXTENDS TraceBase
VARIABLES st, acc, cnt
F == INSTANCE FMMOps WITH One <- 10000
One == 10000
Tol == 2

Start(r) == /\ r.ev = "start" /\ r.new
            /\ st' = l + 1
            /\ acc' = [i \in F!NodeSet(r.w, r.h) |-> IF i \in F!InitiallyAccepted(r.w, r.h, r.phi) THEN 1 ELSE 0]
            /\ cnt' = 1
\* An acceptance: a node not yet accepted, next to an accepted one.
Pop(r) == /\ r.ev = "pop" /\ st > 0
          /\ LET s == Trace[st] IN
             /\ r.node \in F!NodeSet(s.w, s.h)
             /\ acc[r.node] = 0
             /\ \E j \in F!Nbrs(s.w, s.h, r.node) : acc[j] > 0
          /\ acc' = [acc EXCEPT ![r.node] = cnt + 1]
          /\ cnt' = cnt + 1
          /\ st' = st
End(r) == r.ev = "end" /\ st > 0 /\ \A i \in DOMAIN acc : acc[i] > 0
          /\ st' = 0 /\ acc' = <<>> /\ cnt' = 0
Sym(r) == r.ev = "sym" /\ r.new /\ UNCHANGED <<st, acc, cnt>>
Init == TBInit /\ st = 0 /\ acc = <<>> /\ cnt = 0
Next == \/ Advance /\ LET r == Trace[l + 1] IN Start(r) \/ Pop(r) \/ End(r) \/ Sym(r)
        \/ TBDone /\ UNCHANGED <<st, acc, cnt>>
Spec == Init /\ [][Next]_<<l, hi, on, st, acc, cnt>>

\* ---- border nodes: (u/dx)^2 + (u/dy)^2 = 1 with the nearest crossing per axis
RECURSIVE LongDiv(_, _, _, _)
LongDiv(a, n, q, d) == IF d = 0 THEN q + (IF 2 * a >= n THEN 1 ELSE 0) ELSE LongDiv((10 * a) % n, n, 10 * q + ((10 * a) \div n), d - 1)
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Border(r, i) ==
    LET d(k) == LongDiv(F!AbsF(r.phi[i]), F!AbsF(r.phi[i]) + F!AbsF(r.phi[F!Nbr(r.w, r.h, i, k)]), 0, 6)
        O == F!Opposite(r.w, r.h, r.phi, i)
        X == {d(k) : k \in O \cap {1, 2}}
        Y == {d(k) : k \in O \cap {3, 4}}
        u == F!AbsF(r.out6[i])
        Ratio(m) == IF u > m + 2 THEN 20000 ELSE LongDiv(Min2(u, m), m, 0, 4)
        T(m) == 250000 + 10000 * (60000 \div m)
    IN IF Y = {} THEN Near(u, MinOf(X), 2)
       ELSE IF X = {} THEN Near(u, MinOf(Y), 2)
       ELSE LET a == MinOf(X) b == MinOf(Y) IN
            \* crossings within 10^-5 of the node leave too few digits for the quotient
            IF Min2(a, b) < 10 THEN u <= Min2(a, b) + 2 ELSE Near(Ratio(a) * Ratio(a) + Ratio(b) * Ratio(b), 100000000, T(Min2(a, b)))
IsStart == on /\ st = l
BorderExact == IsStart => \A i \in DOMAIN acc : acc[i] = 1 =>
                  IF Rec.phi[i] = 0 THEN Rec.out6[i] = 0 ELSE F!SignF(Rec.out6[i]) \in {0, F!SignF(Rec.phi[i])} /\ Border(Rec, i)

\* ---- accepted nodes: the upwind quadratic, larger root
Solves(u, a, b) ==   \* a, b: terms <<order, t>>
    LET da == u - a[2] db == u - b[2] IN
    /\ F!AbsF(da) <= 10400 /\ F!AbsF(db) <= 10400
    /\ Near(F!Weighted(a[1], da) + F!Weighted(b[1], db), One * One, 400000)
    /\ (IF a[1] = 2 THEN 9 ELSE 4) * da + (IF b[1] = 2 THEN 9 ELSE 4) * db >= -1500
Lone(a) == a[2] + (IF a[1] = 2 THEN 6667 ELSE One)
Solves1(u, a) == Near(u, Lone(a), 5)
\* Directions too far apart to be combined: the nearer one alone.
NoRoot(a, b) == LET d == F!AbsF(a[2] - b[2]) IN d > 15000 \/ d * d >= F!Reach(a[1], b[1]) - 150000
EquationAt(s, i, ac) ==
    LET sg == F!SignF(s.phi[i])
        u == F!AbsF(s.vals[i])
        Tx == F!AxisTerms(s.w, s.h, s.vals, ac, i, sg, 1, 1)
        Ty == F!AxisTerms(s.w, s.h, s.vals, ac, i, sg, 2, 1)
    IN IF Tx = {} /\ Ty = {} THEN FALSE
       ELSE IF Ty = {} THEN \E a \in Tx : Solves1(u, a)
       ELSE IF Tx = {} THEN \E b \in Ty : Solves1(u, b)
       ELSE \E a \in Tx, b \in Ty : Solves(u, a, b) \/ (NoRoot(a, b) /\ Near(u, Min2(Lone(a), Lone(b)), 5))
\* Nodes at the same distance may be accepted together, before their neighbours are recomputed: the last
\* ones at this distance may be left out of the stencil.
JustPopped == on /\ st > 0 /\ st < l
Cut(c, i) == [j \in DOMAIN acc |-> IF j # i /\ acc[j] <= c THEN acc[j] ELSE 0]
RECURSIVE SomeCut(_, _, _)
SomeCut(s, i, c) == \/ EquationAt(s, i, Cut(c, i))
                    \/ /\ c > 1
                       /\ \E j \in DOMAIN acc : acc[j] = c /\ F!AbsF(s.vals[j]) >= F!AbsF(s.vals[i]) - Tol
                       /\ SomeCut(s, i, c - 1)
UpwindEquation == JustPopped => SomeCut(Trace[st], Rec.node, cnt - 1)
\* Least trial distance first: a node accepted after a more distant one was recomputed in between.
GreedyOrder == JustPopped =>
    LET s == Trace[st] i == Rec.node
        R == F!Nbrs(s.w, s.h, i) \cup F!Far(s.w, s.h, i)
        last == CHOOSE p \in {acc[m] : m \in R} : \A q \in {acc[m] : m \in R \ {i}} : q <= p
    IN \A j \in DOMAIN acc : (acc[j] > 1 /\ acc[j] < acc[i] /\ F!AbsF(s.vals[j]) > F!AbsF(s.vals[i]) + Tol) =>
         \/ last >= acc[j]
         \* or in the same batch of equal distances as j
         \/ \E m \in R \ {i} : acc[m] > 1 /\ acc[m] < acc[i] /\ Near(F!AbsF(s.vals[m]), F!AbsF(s.vals[j]), Tol)
\* The accepted distance is the final one, on the side the node started on.
FinalValue == JustPopped => LET s == Trace[st] IN
    /\ Near(F!AbsF(s.vals[Rec.node]), Rec.val, Tol)
    /\ F!SignF(s.vals[Rec.node]) = F!SignF(s.phi[Rec.node])

\* ---- symmetry (10^-6)
SymIndex(r, i) ==
    LET x == (i - 1) % (r.w + 1) y == (i - 1) \div (r.w + 1) IN
    CASE r.kind = "mirrorx" -> (r.w - x) + y * (r.w + 1) + 1
      [] r.kind = "mirrory" -> x + (r.h - y) * (r.w + 1) + 1
      [] r.kind = "transpose" -> y + x * (r.h + 1) + 1
      [] OTHER -> i
Symmetric == on /\ Rec.ev = "sym" =>
    \A i \in 1..Len(Rec.a) : Near(Rec.a[i], (IF Rec.kind = "negate" THEN -1 ELSE 1) * Rec.b[SymIndex(Rec, i)], 20)
=============================================================================
