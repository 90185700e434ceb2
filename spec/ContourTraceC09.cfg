SPECIFICATION Spec
INVARIANTS PointsExact NodeStatuses ElementStatuses NodePoints FieldsUntouched
