SPECIFICATION Spec
INVARIANTS BorderExact UpwindEquation GreedyOrder FinalValue Symmetric
