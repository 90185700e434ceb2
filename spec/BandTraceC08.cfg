SPECIFICATION Spec
INVARIANTS FieldKept
PROPERTIES UpdateIsExact
