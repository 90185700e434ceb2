SPECIFICATION Spec
CONSTANTS W = 6 Top = 2
INVARIANTS Mirrored Odd Shifted Mean StraightExact EndsOneSided WeightsSum
