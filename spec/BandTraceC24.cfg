SPECIFICATION Spec
INVARIANTS ContourInBand SlowStep
