SPECIFICATION Spec
INVARIANTS RightConstraints ProblemOptions Bounds StartsInBounds FirstGuess Functions Gradients Multipliers TimeStep Displacements WithinMaximum InsideDomain FixedStay ObjectiveChange NothingElse CodeReported
