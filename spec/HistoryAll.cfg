SPECIFICATION Spec
CONSTANTS K = 3 MaxSteps = 4 Ops = {"discretise", "normals", "areas", "velocities", "gradients", "reinit", "update", "mask"} Stale = FALSE Shared = FALSE
INVARIANTS Functional
PROPERTIES OneObject
