SPECIFICATION Spec
INVARIANTS SizeRight DrainComplete BulkRight Refused
CHECK_DEADLOCK TRUE
