SPECIFICATION Spec
INVARIANTS ServesUpToFirstInvalid RefusesInvalid FinishesValid OutputOfServedOnly
