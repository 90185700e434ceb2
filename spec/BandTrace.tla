------------------------------- MODULE BandTrace -------------------------------
(* C07, C08, C24.  Histories of a level set: "build" (construction, reinitialisation, masking),     *)
(* "update" (with everything the update depends on) and "keep" (operations that leave the band       *)
(* alone), as steps of Band.  State: the band and the mines the specification says the level set     *)
(* must have.  Each record shows what the level set has.                                             *)
EXTENDS TraceBase, BandOps
VARIABLES band, mines
Nodes(r) == 1..((r.w + 1) * (r.h + 1))
B(r) == BandOf(r.w, r.h, r.fl, r.masked, r.bw, r.fixed)
M(r) == MinesOf(r.w, r.h, r.fl, r.masked, r.bw, r.fixed)
Set(r) == {i \in Nodes(r) : r.mark[i] = 1}

Build(r) == r.ev = "build" /\ band' = B(r) /\ mines' = M(r)
Keep(r) == r.ev = "keep" /\ ~r.new /\ UNCHANGED <<band, mines>>
\* An update on exact values: it reinitialises exactly when a mine has come within one cell.
NewPhi(r) == LET t == r.t * (r.unit \div 4096) IN [i \in Nodes(r) |-> Advanced(r.w, r.h, band, r.phi, r.g, r.v, t, i)]
Exact(r) == r.ev = "update" /\ ~r.new /\
            LET p == NewPhi(r)
                due == \E i \in mines : Abs(p[i]) < r.unit
            IN /\ r.ret = due
               /\ IF due THEN band' = B(r) /\ mines' = M(r) ELSE UNCHANGED <<band, mines>>
\* An update in the middle of an evolution.
Step(r) == r.ev = "step" /\ ~r.new /\ IF r.ret THEN band' = B(r) /\ mines' = M(r) ELSE UNCHANGED <<band, mines>>
Init == TBInit /\ band = {} /\ mines = {}
Next == \/ Advance /\ LET r == Trace[l + 1] IN Build(r) \/ Keep(r) \/ Exact(r) \/ Step(r)
        \/ TBDone /\ UNCHANGED <<band, mines>>
Spec == Init /\ [][Next]_<<l, hi, on, band, mines>>

\* ---- C07
BandListed == on => NoDup(Rec.band) /\ Range(Rec.band) = band /\ Rec.nb = Len(Rec.band)
BandFlagged == on => {i \in Nodes(Rec) : Rec.act[i]} = band
MinesListed == on => NoDup(Rec.mines) /\ Range(Rec.mines) = mines /\ Rec.nm = Len(Rec.mines)
MinesFlagged == on => {i \in Nodes(Rec) : Rec.mine[i]} = mines
\* ---- C08
\* Action property: compare with the band before the step.
UpdateIsExact == [][(Advance /\ Trace[l + 1].ev = "update") =>
    LET r == Trace[l + 1] p == NewPhi(r) IN
    /\ r.adv = p
    /\ r.ret => r.digest = r.refDigest /\ Range(r.refBand) = band'
    /\ ~r.ret => r.out = p]_<<l, hi, on, band, mines>>
FieldKept == on /\ Rec.ev = "keep" => Rec.before = Rec.digest
\* ---- C24
ContourInBand == on /\ Rec.ev \in {"step", "build"} /\ Rec.tame =>
    \A i \in Nodes(Rec) : Rec.near[i] => i \in band \/ Rec.masked[i] = 1 \/ (Rec.fixed /\ OnEdge(Rec.w, Rec.h, i))
SlowStep == on /\ Rec.ev = "step" /\ Rec.tame => \A i \in Nodes(Rec) : Rec.jump[i] = 0
=============================================================================
