------------------------------- MODULE MaskTrace -------------------------------
(* C14.  Histories as steps of Mask: the specification decides which nodes a mask covers and carries *)
(* the masked set; every record shows flags, sides and the band of the real level set.               *)
EXTENDS TraceBase, ShapeOps
VARIABLES masked
Nodes(r) == 1..((r.w + 1) * (r.h + 1))
P(r, i) == <<8 * ((i - 1) % (r.w + 1)), 8 * ((i - 1) \div (r.w + 1))>>
Covered(r, i) ==
    CASE r.kind = "holes" -> \E k \in 1..Len(r.shape) : InHole(<<r.shape[k][1], r.shape[k][2]>>, r.shape[k][3], P(r, i))
      [] r.kind = "rect" -> InRect(r.shape[1], r.shape[2], P(r, i))
      [] r.kind = "polygon" -> Winding(r.shape, P(r, i)) # 0 /\ ~OnOutline(r.shape, P(r, i))
\* Nodes on the outline of a polygon may be masked or not.
Undecided(r) == IF r.kind = "polygon" THEN {i \in Nodes(r) : OnOutline(r.shape, P(r, i))} ELSE {}
Flagged(r) == {i \in Nodes(r) : r.masked[i] = 1}

Start(r) == r.ev = "start" /\ r.new /\ masked' = {}
DoMask(r) == r.ev = "mask" /\ ~r.new
             /\ LET C == {i \in Nodes(r) : Covered(r, i)} IN masked' = masked \cup C \cup (Flagged(r) \cap Undecided(r))
Other(r) == r.ev = "op" /\ ~r.new /\ UNCHANGED masked
Init == TBInit /\ masked = {}
Next == \/ Advance /\ LET r == Trace[l + 1] IN Start(r) \/ DoMask(r) \/ Other(r)
        \/ TBDone /\ UNCHANGED masked
Spec == Init /\ [][Next]_<<l, hi, on, masked>>
MaskExact == on => Flagged(Rec) = masked
MaskedVoid == on => \A i \in masked : Rec.side[i] = -1 /\ ~Rec.act[i] /\ (Rec.disc => Rec.status[i] # "I")
NotInBand == on => \A i \in masked : i \notin Range(Rec.band)
\* A mask and a reinitialisation change no other node's side.
OthersKept == on /\ Rec.ev = "mask" => \A i \in Nodes(Rec) : i \notin masked \/ (Rec.sideBefore[i] = -1) => Rec.side[i] = Rec.sideBefore[i]
=============================================================================
