SPECIFICATION Spec
INVARIANTS UniformRange IntegerRange FirstsDiffer ScaledRelation Stats
