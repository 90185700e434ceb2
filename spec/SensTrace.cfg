SPECIFICATION Spec
INVARIANTS CalledAtDisplaced OthersUnchangedInCall PointRestored CentralDifference Ito ItoFine ItoLine OnlyObjectives ColdDoesNothing WithLevelSet
