------------------------------- MODULE WenoOps -------------------------------
(* Fifth-order WENO one-sided derivatives on a line of nodes (Jiang and Shu / Osher and Fedkiw), the   *)
(* line continued linearly beyond its ends.  Values are integers in some unit; the regularisation of   *)
(* the smoothness measures is given as E in units of (1/12K), so 12 K s = K * Smooth + E.              *)
EXTENDS Arith
\* Value at place i of a line f (nodes 0..w, f[i + 1]) continued linearly.
Line(f, i) == LET n == Len(f) IN
    CASE i < 0     -> f[1] + i * (f[2] - f[1])
      [] i > n - 1 -> f[n] + (i - n + 1) * (f[n] - f[n - 1])
      [] OTHER     -> f[i + 1]
Diff(f, i) == Line(f, i + 1) - Line(f, i)
\* The five differences seen from node i: looking right and looking left.
Right(f, i) == <<Diff(f, i + 2), Diff(f, i + 1), Diff(f, i), Diff(f, i - 1), Diff(f, i - 2)>>
Left(f, i)  == <<Diff(f, i - 3), Diff(f, i - 2), Diff(f, i - 1), Diff(f, i), Diff(f, i + 1)>>
\* Twelve times the smoothness measures, six times the candidate derivatives, ten times the ideal weights.
Smooth(v) == <<13 * (v[1] - 2*v[2] + v[3]) * (v[1] - 2*v[2] + v[3]) + 3 * (v[1] - 4*v[2] + 3*v[3]) * (v[1] - 4*v[2] + 3*v[3]),
               13 * (v[2] - 2*v[3] + v[4]) * (v[2] - 2*v[3] + v[4]) + 3 * (v[2] - v[4]) * (v[2] - v[4]),
               13 * (v[3] - 2*v[4] + v[5]) * (v[3] - 2*v[4] + v[5]) + 3 * (3*v[3] - 4*v[4] + v[5]) * (3*v[3] - 4*v[4] + v[5])>>
Cand(v) == <<2*v[1] - 7*v[2] + 11*v[3], 5*v[3] - v[2] + 2*v[4], 2*v[3] + 5*v[4] - v[5]>>
Ideal == <<1, 6, 3>>
Least(s) == IF s[1] <= s[2] /\ s[1] <= s[3] THEN s[1] ELSE IF s[2] <= s[3] THEN s[2] ELSE s[3]
\* a / n in 10^-6 for 0 <= a <= n, any size; square of a number in 10^-6 up to one.
Frac(a, n) == IF n = 0 THEN 1000000 ELSE IF n > 200000000 THEN Ratio(a \div 16, n \div 16, 6) ELSE Ratio(a, n, 6)
Sq(r) == LET a == r \div 1000 b == r % 1000 IN a * a + (2 * a * b + (b * b) \div 1000) \div 1000
\* Weights in 10^-6.
Weights(v, K, E) ==
    LET s == [k \in 1..3 |-> K * Smooth(v)[k] + E] m == Least(s)
        a == [k \in 1..3 |-> IF s[k] = m THEN Ideal[k] * 1000000 ELSE IF m = 0 THEN 0 ELSE Ideal[k] * Sq(Frac(m, s[k]))]
        t == a[1] + a[2] + a[3]
    IN [k \in 1..3 |-> Ratio(a[k], t, 6)]
\* The derivative in 10^-5 (differences up to 100).
Weno(v, K, E) == LET w == Weights(v, K, E) c == Cand(v) IN
    (SRatio(w[1] * c[1], 60, 0) + SRatio(w[2] * c[2], 60, 0) + SRatio(w[3] * c[3], 60, 0))
\* Upwind gradient from the four derivatives: sgn is the sign of the velocity (+1 when it is zero).
Keep(x, up) == IF up THEN (IF x < 0 THEN x ELSE 0) ELSE (IF x > 0 THEN x ELSE 0)
Parts(hor, ver, i, j, sgn, K, E) ==
    <<Keep(sgn * Weno(Right(hor, i), K, E), TRUE), Keep(sgn * Weno(Left(hor, i), K, E), FALSE),
      Keep(sgn * Weno(Right(ver, j), K, E), TRUE), Keep(sgn * Weno(Left(ver, j), K, E), FALSE)>>
\* Length of a vector of four parts in 10^-5, result in 10^-5 (relative accuracy some 10^-4).
Length4(p) ==
    LET m == AbsA(p[1]) + AbsA(p[2]) + AbsA(p[3]) + AbsA(p[4])
        c == m \div 46000 + 1
        q == [k \in 1..4 |-> SRatio(p[k], c, 0)]
    IN c * Root(q[1]*q[1] + q[2]*q[2] + q[3]*q[3] + q[4]*q[4])
=============================================================================
