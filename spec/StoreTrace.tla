------------------------------- MODULE StoreTrace -------------------------------
(* C16.  Histories of changes, saves and loads of two level sets as steps of Store.  State: what     *)
(* every file must hold and what each level set must be.                                             *)
EXTENDS TraceBase, StoreOps
VARIABLES files, objs
Start(r) == r.ev = "start" /\ r.new /\ files' = <<>> /\ objs' = r.objs
Change(r) == r.ev = "change" /\ ~r.new /\ objs' = [objs EXCEPT ![r.obj] = r.state] /\ UNCHANGED files
Target(r) == IF r.number < 0 THEN r.name ELSE Numbered(r.form, r.dir, r.number)
Content(r) ==
    LET o == objs[r.obj] IN
    CASE r.form = "lsbin" -> [kind |-> "bin", bits |-> o.bits]
      [] r.form = "lstxt" -> [kind |-> "text", t |-> TextField(o, r.xy), xy |-> r.xy, phi |-> o.phi]
      [] r.form = "lsvtk" -> [kind |-> "vtk", t |-> LevelSetVTK(r.w, r.h, o, r.isVel, r.isGrad)]
      [] r.form = "areavtk" -> [kind |-> "vtk", t |-> AreaVTK(r.w, r.h, o)]
      [] r.form = "areatxt" -> [kind |-> "text", t |-> AreaText(o, r.xy), xy |-> r.xy]
      [] r.form = "points" -> [kind |-> "text", t |-> PointsText(r.boundary), xy |-> FALSE]
      [] r.form = "segments" -> [kind |-> "text", t |-> SegmentsText(r.boundary), xy |-> FALSE]
Upd(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
Save(r) == /\ r.ev = "save" /\ ~r.new
           /\ files' = Upd(files, Target(r), Content(r))
           /\ UNCHANGED objs
\* Loading replaces the field only.
Load(r) == /\ r.ev = "load" /\ ~r.new
           /\ Target(r) \in DOMAIN files
           /\ LET c == files[Target(r)] o == objs[r.obj] IN
              IF r.form = "lsbin" THEN c.kind = "bin" /\ objs' = [objs EXCEPT ![r.obj].bits = c.bits, ![r.obj].phi = r.state.phi]
              ELSE c.kind = "text" /\ c.xy = r.xy /\ objs' = [objs EXCEPT ![r.obj].phi = c.phi, ![r.obj].bits = r.state.bits]
           /\ UNCHANGED files
Init == TBInit /\ files = <<>> /\ objs = <<>>
Next == \/ Advance /\ LET r == Trace[l + 1] IN Start(r) \/ Change(r) \/ Save(r) \/ Load(r)
        \/ TBDone /\ UNCHANGED <<files, objs>>
Spec == Init /\ [][Next]_<<l, hi, on, files, objs>>

Close(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i], 1)
SameBlocks(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i].name = b[i].name /\ Close(a[i].v, b[i].v)
\* The file under the expected name holds the expected content, and no other file changed.
FileExact == on /\ Rec.ev = "save" =>
    /\ Range(Rec.changed) \subseteq {Target(Rec)}
    /\ Range(Rec.exist) = DOMAIN files
    /\ LET c == files[Target(Rec)] IN
       CASE c.kind = "bin" -> Rec.bits = c.bits
         [] c.kind = "text" -> Close(Rec.t, c.t)
         [] c.kind = "vtk" -> Rec.vtk.head = c.t.head /\ SameBlocks(Rec.vtk.blocks, c.t.blocks)
\* Text files hold one line per node, element or point (two per segment), each of the same number of values.
PerLine(r) == LET xy == IF r.xy THEN 2 ELSE 0 IN
              CASE r.form = "lstxt" -> 3 + xy [] r.form = "areatxt" -> 1 + xy [] r.form = "points" -> 3 [] r.form = "segments" -> 2
LineExact == on /\ Rec.ev = "save" /\ Rec.form \in {"lstxt", "areatxt", "points", "segments"} =>
    /\ \A i \in 1..Len(Rec.perLine) : Rec.perLine[i] = PerLine(Rec)
    /\ Len(Rec.perLine) * PerLine(Rec) = Len(Rec.t)
SameObj(a, b) == a.bits = b.bits /\ Close(a.phi, b.phi) /\ a.vel = b.vel /\ a.grad = b.grad /\ a.area = b.area /\ a.flags = b.flags
\* Every level set is what the history says (saving changes none, loading only the one loaded).
ObjectsExact == on /\ Rec.ev \in {"save", "load"} => \A k \in 1..Len(objs) : SameObj(objs[k], Rec.objs[k])
NothingElseWritten == on /\ Rec.ev = "load" => Rec.changed = <<>>
=============================================================================
