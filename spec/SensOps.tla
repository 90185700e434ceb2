------------------------------- MODULE SensOps -------------------------------
(* Finite-difference sensitivities.                                                                 *)
EXTENDS Arith
\* Displaced positions: base + s * d * n.
Displaced(base, n, d, s) == <<base[1] + s * d * n[1], base[2] + s * d * n[2]>>
\* Distances are twice the length in 10^-4 (argument: coordinate differences in 10^-4, up to 1.6).
Dist2(dx, dy) == Root(4 * (dx * dx + dy * dy))
RECURSIVE Perim2(_, _, _)
Perim2(at, nb, k) == IF k = 0 THEN 0 ELSE Dist2(at[1] - nb[k][1], at[2] - nb[k][2]) + Perim2(at, nb, k - 1)
=============================================================================
