-------------------------------- MODULE StoreOps --------------------------------
(* Names and contents of the files slsm writes.  Numbers are in millionths; a file is a sequence of  *)
(* tokens, numbers and header words.                                                                  *)
EXTENDS Integers, Sequences, TLC
Pad4(n) == LET s == ToString(n) IN IF n < 10 THEN "000" \o s ELSE IF n < 100 THEN "00" \o s ELSE IF n < 1000 THEN "0" \o s ELSE s
Prefix(form) == CASE form \in {"lsvtk", "lstxt", "lsbin"} -> "level-set_"
                  [] form = "points" -> "boundary-points_" [] form = "segments" -> "boundary-segments_"
                  [] form \in {"areavtk", "areatxt"} -> "area_"
Ext(form) == CASE form \in {"lsvtk", "areavtk"} -> ".vtk" [] form = "lsbin" -> ".bin" [] OTHER -> ".txt"
Numbered(form, dir, n) == (IF dir = "" THEN "" ELSE dir \o "/") \o Prefix(form) \o Pad4(n) \o Ext(form)

RECURSIVE Flat(_, _)
Flat(F, n) == IF n = 0 THEN <<>> ELSE Flat(F, n - 1) \o F[n]
M == 1000000
\* o: the state of a level set; m: its mesh size; b: the boundary.  Entities in index order; nodes and
\* elements row by row.
TextField(o, xy) == Flat([i \in 1..Len(o.phi) |-> (IF xy THEN o.xy[i] ELSE <<>>) \o <<o.phi[i], o.vel[i], o.grad[i]>>], Len(o.phi))
Grid(w, h) == <<"DIMENSIONS", w + 1, h + 1, 1, "X_COORDINATES", w + 1, "int">> \o [i \in 1..(w + 1) |-> i - 1]
              \o <<"Y_COORDINATES", h + 1, "int">> \o [i \in 1..(h + 1) |-> i - 1] \o <<"Z_COORDINATES", 1, "int", 0>>
\* VTK data runs along x first.
Scalars(name, v) == <<"SCALARS", name, "float", "1", "LOOKUP_TABLE", "default">> \o v
ByRow(r, v) == [i \in 1..Len(v) |-> v[r[i]]]
LevelSetVTK(w, h, o, vel, grad) ==
    [head |-> Grid(w, h) \o <<"POINT_DATA", (w + 1) * (h + 1)>>,
     blocks |-> <<[name |-> "distance", v |-> ByRow(o.row, o.phi)]>> \o (IF vel THEN <<[name |-> "velocity", v |-> ByRow(o.row, o.vel)]>> ELSE <<>>)
                \o (IF grad THEN <<[name |-> "gradient", v |-> ByRow(o.row, o.grad)]>> ELSE <<>>)]
AreaVTK(w, h, o) ==
    [head |-> Grid(w, h) \o <<"CELL_DATA", w * h>>, blocks |-> <<[name |-> "area", v |-> ByRow(o.erow, o.area)]>>]
AreaText(o, xy) == Flat([i \in 1..Len(o.area) |-> (IF xy THEN o.exy[i] ELSE <<>>) \o <<o.area[i]>>], Len(o.area))
PointsText(b) == Flat([i \in 1..Len(b.pts) |-> b.pts[i] \o <<b.len[i]>>], Len(b.pts))
SegmentsText(b) == Flat([i \in 1..Len(b.segs) |-> b.pts[b.segs[i][1]] \o b.pts[b.segs[i][2]]], Len(b.segs))
=============================================================================
