------------------------------ MODULE NormalRule ------------------------------
(* Inward normals: direction of the nodal gradient (central differences, one-sided at the edge    *)
(* of the mesh), averaged at a point with inverse-square weights of the distances to the nodes.   *)
EXTENDS ContourOps
MaxAbs(v) == IF AbsV(v[1]) > AbsV(v[2]) THEN AbsV(v[1]) ELSE AbsV(v[2])
RECURSIVE ISqrtFrom(_, _)
ISqrtFrom(v, x) == LET y == (x + v \div x) \div 2 IN IF y >= x THEN x ELSE ISqrtFrom(v, y)
ISqrt(v) == IF v = 0 THEN 0 ELSE ISqrtFrom(v, IF v > 40000 THEN 46340 ELSE 200)
\* A vector brought to a length of about 20000.
Fit(v) == LET m == MaxAbs(v) IN
          IF m = 0 THEN <<0, 0>>
          ELSE IF m > 20000 THEN LET d == m \div 20000 + 1 IN <<(v[1] + d \div 2) \div d, (v[2] + d \div 2) \div d>>
          ELSE LET f == 20000 \div m IN <<v[1] * f, v[2] * f>>
\* Unit vector in units of 1/s.
Unit(v, s) == LET u == Fit(v) m == ISqrt(u[1] * u[1] + u[2] * u[2]) IN <<(u[1] * s) \div m, (u[2] * s) \div m>>
DiffAt(g, p, d) == \* twice the difference along axis d
    LET q(k) == IF d = 1 THEN <<p[1] + k, p[2]>> ELSE <<p[1], p[2] + k>>
        top == IF d = 1 THEN g.w ELSE g.h
    IN CASE p[d] = 0 -> 2 * (Phi(g, q(1)) - Phi(g, p))
         [] p[d] = top -> 2 * (Phi(g, p) - Phi(g, q(-1)))
         [] OTHER -> Phi(g, q(1)) - Phi(g, q(-1))
GradAt(g, p) == <<DiffAt(g, p, 1), DiffAt(g, p, 2)>>
\* Direction of the weighted average of two unit gradients at distances dp, dq (millionths, dp + dq <= 10^6):
\* the weights 1/dp^2 and 1/dq^2, multiplied by dp^2 * dq^2.
Average(gp, dp, gq, dq) ==
    LET a == (dp + 625) \div 1250
        b == (dq + 625) \div 1250
        u == Unit(gp, 3000)
        v == Unit(gq, 3000)
    IN <<u[1] * b * b + v[1] * a * a, u[2] * b * b + v[2] * a * a>>
\* The same when the first node is very near: the ratio of the weights in millionths.
AverageNear(up, dp, uq, dq) ==
    LET w == (dp * dp) \div ((dq \div 1000) * (dq \div 1000))
    IN <<10 * up[1] + (uq[1] * w + 50000) \div 100000, 10 * up[2] + (uq[2] * w + 50000) \div 100000>>
=============================================================================
