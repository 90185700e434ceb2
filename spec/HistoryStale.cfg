SPECIFICATION Spec
CONSTANTS K = 3 MaxSteps = 3 Ops = {"discretise", "normals", "areas", "velocities", "gradients", "reinit", "update", "mask"} Stale = TRUE Shared = FALSE
INVARIANTS Functional
