SPECIFICATION Spec
INVARIANTS Areas AreaTotal
