------------------------------- MODULE RngTrace -------------------------------
(* C17.  Draws of real generators.  The generator is observed from outside, so its state is the      *)
(* history since the last seed; `memo` maps a history and a call to what came out the first time     *)
(* that was seen (histories are numbered: `memo` also gives the number of the longer history).       *)
(* A deterministic machine never gives anything else for the same history, whichever object and      *)
(* whatever happened before.                                                                         *)
EXTENDS TraceBase
VARIABLES at, memo, roots, cnt
rng == <<at, memo, roots, cnt>>
\* at: object -> number of its history; roots: seed -> number of the empty history; cnt: last number given.
Empty == [x \in {} |-> 0]
HasRoot(s) == s \in DOMAIN roots
Root(s) == IF HasRoot(s) THEN roots[s] ELSE cnt + 1
Seeded(r, s) ==
    /\ at' = (r.obj :> Root(s)) @@ at
    /\ roots' = (s :> Root(s)) @@ roots
    /\ cnt' = IF HasRoot(s) THEN cnt ELSE cnt + 1
    /\ memo' = memo
Case(r) == r.ev = "case" /\ r.new /\ at' = Empty /\ memo' = Empty /\ roots' = Empty /\ cnt' = 0
Make(r) == r.ev = "make" /\ Seeded(r, r.seed)                     \* seed: the one the generator reports
Seed(r) == r.ev = "seed" /\ r.obj \in DOMAIN at /\ r.reported = r.seed /\ Seeded(r, r.seed)
Copy(r) == r.ev = "copy" /\ r.from \in DOMAIN at /\ r.reported = r.fromReported
           /\ at' = (r.obj :> at[r.from]) @@ at /\ UNCHANGED <<memo, roots, cnt>>
\* A draw: one value, or (kind m) a fixed number of mixed ones, of which a hash comes out.
DrawR(r) ==
    /\ r.ev = "draw" /\ r.obj \in DOMAIN at
    /\ LET key == <<at[r.obj], r.kind, r.a, r.b>> IN
       IF key \in DOMAIN memo
       THEN /\ r.out = memo[key].out                              \* the same history gives the same value
            /\ at' = (r.obj :> memo[key].next) @@ at /\ UNCHANGED <<memo, roots, cnt>>
       ELSE /\ memo' = (key :> [out |-> r.out, next |-> cnt + 1]) @@ memo
            /\ at' = (r.obj :> cnt + 1) @@ at /\ cnt' = cnt + 1 /\ roots' = roots
Other(r) == r.ev \in {"stat", "first", "scaled"} /\ r.new /\ UNCHANGED rng
Init == TBInit /\ at = Empty /\ memo = Empty /\ roots = Empty /\ cnt = 0
Next == \/ Advance /\ LET r == Trace[l + 1] IN Case(r) \/ Make(r) \/ Seed(r) \/ Copy(r) \/ DrawR(r) \/ Other(r)
        \/ TBDone /\ UNCHANGED rng
Spec == Init /\ [][Next]_<<l, hi, on, rng>>

Is(e) == on /\ Rec.ev = e
TwoTo30 == 1073741824
\* Ranges.
UniformRange == Is("draw") /\ Rec.kind = "u" => Rec.value >= 0 /\ Rec.value < TwoTo30          \* floor(2^30 x)
IntegerRange == Is("draw") /\ Rec.kind = "i" => Rec.a <= Rec.value /\ Rec.value <= Rec.b
\* Different seeds give different streams; the first draws of n seeds.
FirstsDiffer == Is("first") => Cardinality({Rec.outs[k] : k \in 1..Len(Rec.outs)}) = Len(Rec.outs)
\* A scaled draw made directly after a seed is mean + deviation * the standard draw made directly after it (10^-6 relative to the deviation).
ScaledRelation == Is("scaled") => Near(Rec.normalised, Rec.standard, 2)
\* Long runs: every value of a small integer range and every eighth of [0,1) equally often; normal
\* draws with the tabulated frequencies and independent of the one before.  6 standard deviations.
Even(c, n) == \A k \in 1..Len(c) : LET e == n \div Len(c) d == Abs(c[k] - e) IN d * d <= 36 * (e + 1)
Stats == Is("stat") =>
    CASE Rec.what = "integer" -> Len(Rec.count) = Rec.hi - Rec.lo + 1 /\ Even(Rec.count, Rec.n)
      [] Rec.what = "uniform" -> Even(Rec.count, Rec.n) /\ Even(Rec.pairs, Rec.n)
      [] Rec.what = "bits" -> Even(Rec.low, Rec.n) /\ Even(Rec.high, Rec.n)     \* the lowest and highest three bits of a wide range
      [] OTHER -> \* counts below -1, in [-1,0), [0,1), from 1 on, in units of the deviation around the mean
            LET p == <<1587, 3413, 3413, 1587>> IN
            /\ Len(Rec.count) = 4
            /\ \A k \in 1..4 : LET e == (p[k] * (Rec.n \div 100)) \div 100 d == Abs(Rec.count[k] - e) IN d * d <= 36 * (e + 1)
            /\ Even(Rec.pairs, Rec.n)                             \* sign of this draw and of the one before
=============================================================================
