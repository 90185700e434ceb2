-------------------------------- MODULE Arith --------------------------------
(* Exact and fixed-point arithmetic on 32-bit integers.                                             *)
EXTENDS Integers, Sequences
AbsA(x) == IF x < 0 THEN -x ELSE x
\* floor(sqrt(v)) up to one (0 <= v < 2^31).
RECURSIVE RootFrom(_, _)
RootFrom(v, x) == LET y == (x + v \div x) \div 2 IN IF y >= x THEN x ELSE RootFrom(v, y)
Root(v) == IF v = 0 THEN 0 ELSE RootFrom(v, IF v > 40000 THEN 46340 ELSE 200)
\* a / n to d decimal places, rounded (a, n > 0; 10 n in range), by long division.
RECURSIVE Long(_, _, _, _)
Long(a, n, q, d) == IF d = 0 THEN q + (IF 2 * a >= n THEN 1 ELSE 0) ELSE Long((10 * a) % n, n, 10 * q + ((10 * a) \div n), d - 1)
Ratio(a, n, d) == Long(a % n, n, a \div n, d)
SRatio(a, n, d) == IF (a < 0) # (n < 0) THEN -Ratio(AbsA(a), AbsA(n), d) ELSE Ratio(AbsA(a), AbsA(n), d)
=============================================================================
