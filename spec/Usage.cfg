SPECIFICATION Spec
CONSTANTS
 N = 3
 Emits = TRUE
 Ops = {"discretise", "target", "normals", "areas", "velocities", "noisy", "gradients", "reinit", "update", "mask", "transfer", "replace", "ito", "itols", "sensitivity"}
INVARIANTS ReadsCurrent Emit
