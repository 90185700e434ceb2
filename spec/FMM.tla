---------------------------------- MODULE FMM ----------------------------------
(* Design of the reinitialisation (C04, C05) as a transition system: nodes next to the contour    *)
(* are accepted first, then repeatedly a trial node of least distance, whose neighbours are        *)
(* recomputed.  Checked for all sign patterns on a small grid with several magnitude patterns.     *)
EXTENDS FMMOps, TLC
CONSTANTS W, H, Patterns
VARIABLES f, v, acc, cnt, trial
vars == <<f, v, acc, cnt, trial>>
N == NodeSet(W, H)
Mag(p) == CASE p = 1 -> [i \in N |-> 1 + ((i * 2) % 3)]
            [] p = 2 -> [i \in N |-> 1 + ((i * i) % 4)]
            [] p = 3 -> [i \in N |-> 1]

ISqrtTo(x, lo, hi) == CHOOSE r \in lo..hi : r * r <= x /\ (r + 1) * (r + 1) > x
\* Distance of a border node: 1/sqrt(1/dx^2 + 1/dy^2), by comparing squares.
Cross(i, d) == LET a == AbsF(f[i]) b == AbsF(f[Nbr(W, H, i, d)]) IN (One * a) \div (a + b)
MinS(S) == CHOOSE x \in S : \A y \in S : x <= y
Border(i) ==
    LET X == {Cross(i, d) : d \in Opposite(W, H, f, i) \cap {1, 2}}
        Y == {Cross(i, d) : d \in Opposite(W, H, f, i) \cap {3, 4}}
        s == SignF(f[i])
    IN IF f[i] = 0 THEN 0
       ELSE IF Y = {} THEN s * MinS(X) ELSE IF X = {} THEN s * MinS(Y)
       ELSE LET a == MinS(X) b == MinS(Y) IN s * ISqrtTo((a * a * b * b) \div (a * a + b * b), 0, One)
Inits == {[p |-> p, s |-> s] : p \in Patterns, s \in [N -> {-1, 1}]}

\* The larger root (nodes are handled on the positive side); the nearer direction alone when there is none.
Value(i, vv, ac) ==
    LET s == SignF(f[i])
        Tx == AxisTerms(W, H, vv, ac, i, s, 1, 0)
        Ty == AxisTerms(W, H, vv, ac, i, s, 2, 0)
        Pick(T) == IF \E t \in T : t[1] = 2 THEN CHOOSE t \in T : t[1] = 2 ELSE CHOOSE t \in T : TRUE
        Single(t) == t[2] + (IF t[1] = 2 THEN (2 * One) \div 3 ELSE One)
    IN IF Tx = {} THEN s * Single(Pick(Ty))
       ELSE IF Ty = {} THEN s * Single(Pick(Tx))
       ELSE LET a == Pick(Tx) b == Pick(Ty)
                lo == IF a[2] > b[2] THEN b[2] ELSE a[2]
                Q(u) == Weighted(a[1], u - a[2]) + Weighted(b[1], u - b[2])
                R == {u \in lo..(lo + One) : Q(u) <= One * One}
            IN IF (a[2] - b[2]) * (a[2] - b[2]) >= Reach(a[1], b[1]) \/ R = {}
               THEN s * (IF Single(a) < Single(b) THEN Single(a) ELSE Single(b))
               ELSE s * (CHOOSE u \in R : \A x \in R : x <= u)

Init == /\ \E k \in Inits : f = [i \in N |-> k.s[i] * Mag(k.p)[i]]
        /\ InitiallyAccepted(W, H, f) # {}
        /\ acc = [i \in N |-> IF i \in InitiallyAccepted(W, H, f) THEN 1 ELSE 0]
        /\ cnt = 1
        /\ LET v0 == [i \in N |-> IF acc[i] = 1 THEN Border(i) ELSE One * f[i]]
           IN v = [i \in N |-> IF acc[i] = 0 /\ \E j \in Nbrs(W, H, i) : acc[j] = 1 THEN Value(i, v0, acc) ELSE v0[i]]
        /\ trial = {i \in N : acc[i] = 0 /\ \E j \in Nbrs(W, H, i) : acc[j] = 1}
Accept == \E i \in trial :
    /\ \A j \in trial : AbsF(v[i]) <= AbsF(v[j])
    /\ LET acc2 == [acc EXCEPT ![i] = cnt + 1]
           touched == {j \in Nbrs(W, H, i) : acc2[j] = 0}
       IN /\ acc' = acc2
          /\ v' = [j \in N |-> IF j \in touched THEN Value(j, v, acc2) ELSE v[j]]
          /\ trial' = (trial \ {i}) \cup touched
    /\ cnt' = cnt + 1
    /\ UNCHANGED f
Done == trial = {} /\ UNCHANGED vars
Next == Accept \/ Done
Spec == Init /\ [][Next]_vars

SidesKept == \A i \in N : acc[i] > 0 => SignF(v[i]) = SignF(f[i])
TrialIsTheRim == trial = {i \in N : acc[i] = 0 /\ \E j \in Nbrs(W, H, i) : acc[j] > 0}
AllAccepted == trial = {} => \A i \in N : acc[i] > 0
FurtherThanSomeNeighbour == \A i \in N : acc[i] > 1 => \E j \in Nbrs(W, H, i) : acc[j] > 0 /\ acc[j] < acc[i] /\ AbsF(v[j]) < AbsF(v[i])
BorderInsideCell == \A i \in N : acc[i] = 1 => AbsF(v[i]) <= One
AcceptedStaysPut == [][\A i \in N : acc[i] > 0 => acc'[i] = acc[i] /\ v'[i] = v[i]]_vars
=============================================================================
