SPECIFICATION Spec
INVARIANTS ElementContains NodeNearest FormsAgree
CHECK_DEADLOCK TRUE
