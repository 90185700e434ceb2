SPECIFICATION Spec
CONSTANTS Checked = TRUE MaxSteps = 3 Sides = {10, 74, 75, 150} Bands = {0, 2, 3} Moves = {0, 500, 1000}
INVARIANTS HeapWithinCapacity RefusedOnlyInvalid ServedAgrees
PROPERTIES ServedOnlyValid RefusalChangesNothing RefusalIsFinal
