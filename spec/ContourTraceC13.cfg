SPECIFICATION Spec
INVARIANTS Limits
