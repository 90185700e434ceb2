------------------------------- MODULE NoiseOps -------------------------------
(* Time step rule of the thermal noise.  Temperature T = t/131072, time step dt = d/1024, global     *)
(* move limit L = c/64, all integers, so that every comparison is exact:                            *)
(*     sqrt(2 T dt) > L/2   <=>   8 T dt > L^2   <=>   t d > 4096 c^2.                               *)
EXTENDS Arith
TooLarge(t, d, c) == t * d > 4096 * c * c
\* The scale factor 8 T dt / L^2 as a fraction.
ScaleNum(t, d, c) == IF TooLarge(t, d, c) THEN t * d ELSE 1
ScaleDen(t, d, c) == IF TooLarge(t, d, c) THEN 4096 * c * c ELSE 1
\* The time step afterwards in 10^-6: L^2 / (8 T) = 4 c^2 / t.
NewStep(t, d, c) == IF TooLarge(t, d, c) THEN Ratio(4 * c * c, t, 6) ELSE Ratio(d, 1024, 6)
\* The noise prefactor sqrt(2 T / dt') in 10^-3: 4 T / L = t / (512 c) when scaled; otherwise T is
\* chosen as dt k^2 / 2 (t = d k8^2, k = k8 / 8), and the prefactor is k.
Prefactor(t, d, c) == IF TooLarge(t, d, c) THEN Ratio(t, 512 * c, 3) ELSE Ratio(Root(t \div d), 8, 3)
=============================================================================
