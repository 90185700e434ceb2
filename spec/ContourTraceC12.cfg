SPECIFICATION Spec
INVARIANTS Normals
