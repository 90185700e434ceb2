SPECIFICATION Spec
CONSTANTS W = 4 Top = 2
INVARIANTS Mirrored Odd Shifted Mean StraightExact EndsOneSided WeightsSum
