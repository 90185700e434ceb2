------------------------------- MODULE HistOps -------------------------------
(* What each operation of the library may depend on and what it may change.                            *)
(* Parts of a level set: X size and parameters, F field, M masks, B band and mines, V velocities,       *)
(* G gradients, T target, S statuses of nodes and elements, A area fractions.  Parts of a boundary:     *)
(* P points, segments, lengths and limits, N normals, W velocities, Q sensitivities.                    *)
EXTENDS Integers, Sequences, FiniteSets
LsParts == {"X", "F", "M", "B", "V", "G", "T", "S", "A"}
BdParts == {"P", "N", "W", "Q"}
R(l, b) == [l |-> l, b |-> b]
Reads(op) ==
    CASE op = "discretise" -> R({"X", "F", "M", "B"}, {})
      [] op = "target"     -> R({"X", "T", "M", "B"}, {})
      [] op = "normals"    -> R({"X", "F", "B", "S"}, {"P"})
      [] op = "areas"      -> R({"X", "S"}, {"P"})
      [] op = "velocities" -> R({"X", "F", "M", "B"}, {"P", "W"})
      [] op = "noisy"      -> R({"X", "F", "M", "B"}, {"P", "W"})
      [] op = "gradients"  -> R({"X", "F", "V", "B"}, {})
      [] op = "reinit"     -> R({"X", "F", "M"}, {})
      [] op = "update"     -> R({"X", "F", "M", "V", "G", "B"}, {})
      [] op = "mask"       -> R({"X", "F", "M"}, {})
      [] op = "sensitivity" -> R({}, {"P", "N", "W"})
      [] op = "ito"        -> R({}, {"P", "N", "Q"})
      [] op = "itols"      -> R({"X", "F", "B", "S"}, {"P", "Q"})
      [] op = "locate"     -> R({"X"}, {})
      [] op = "perimeter"  -> R({}, {"P"})
      [] op = "savels"     -> R({"X", "F", "V", "G"}, {})
      [] op = "savebd"     -> R({}, {"P", "N", "W", "Q"})
      [] op = "saveareas"  -> R({"X", "A"}, {})
      [] OTHER             -> R({}, {})
\* Parts an operation determines.
Writes(op) ==
    CASE op \in {"discretise", "target"} -> R({"S"}, {"P", "N", "W", "Q"})
      [] op = "normals"    -> R({}, {"N"})
      [] op = "areas"      -> R({"A"}, {})
      [] op = "velocities" -> R({"V"}, {})
      [] op = "noisy"      -> R({"V"}, {"W"})
      [] op = "gradients"  -> R({"G"}, {})
      [] op = "reinit"     -> R({"F", "B"}, {})
      [] op = "update"     -> R({"F", "B"}, {})
      [] op = "mask"       -> R({"F", "M", "B"}, {})
      [] op = "ito"        -> R({}, {"Q"})
      [] op = "itols"      -> R({}, {"N", "Q"})
      [] OTHER             -> R({}, {})
\* Parts that may change without being determined (scratch data left in the mesh by an update).
Disturbs(op) == IF op = "update" THEN R({"S"}, {}) ELSE R({}, {})
Operations == {"discretise", "target", "normals", "areas", "velocities", "noisy", "gradients", "reinit", "update", "mask", "sensitivity",
               "ito", "itols", "locate", "perimeter", "savels", "savebd", "saveareas"}
ReadOnly == {"sensitivity", "locate", "perimeter", "savels", "savebd", "saveareas"}
=============================================================================
