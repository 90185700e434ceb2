-------------------------------- MODULE Noise --------------------------------
(* The time step of a stochastic evolution: each step the caller asks for some time step, the rule   *)
(* may shorten it.  The rule has to keep the size of the noise displacement, sqrt(2 T dt), within     *)
(* half the move limit, to change nothing when that already holds, and to lose no time: scale times  *)
(* the new step is the old step.                                                                     *)
EXTENDS NoiseOps
CONSTANTS Ks, Ds, Cs
VARIABLES t, d, c, num, den, dtn, dtd         \* time step now: dtn / dtd in units of 1/1024
vars == <<t, d, c, num, den, dtn, dtd>>
Init == /\ \E k \in Ks, dd \in Ds, cc \in Cs : t = dd * k * k /\ d = dd /\ c = cc
        /\ num = 0 /\ den = 1 /\ dtn = d /\ dtd = 1
\* Time step divided by the scale factor.
Apply == /\ num = 0
         /\ num' = ScaleNum(t, d, c) /\ den' = ScaleDen(t, d, c)
         /\ dtn' = d * ScaleDen(t, d, c) /\ dtd' = ScaleNum(t, d, c)
         /\ UNCHANGED <<t, d, c>>
Stop == num > 0 /\ UNCHANGED vars
Spec == Init /\ [][Apply \/ Stop]_vars
Applied == num > 0
\* 2 T dt' <= L^2 / 4, i.e. t dt' <= 4096 c^2, with dt' = dtn/dtd.
WithinHalfLimit == Applied => t * dtn <= 4096 * c * c * dtd
ExactlyHalfWhenScaled == Applied /\ num # den => t * dtn = 4096 * c * c * dtd
NeverLonger == Applied => num >= den
NoTimeLost == Applied => num * dtn = den * (d * dtd)
IdleWhenSmall == Applied /\ t * d <= 4096 * c * c => num = den /\ dtn = d * dtd
=============================================================================
