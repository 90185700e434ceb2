SPECIFICATION Spec
INVARIANTS Functional OthersUntouched OnlyItsParts TransferExact KnownStep
