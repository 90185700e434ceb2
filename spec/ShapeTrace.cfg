SPECIFICATION Spec
INVARIANTS HolesExact PolygonExact FineExact SwissExact TargetIndependent
