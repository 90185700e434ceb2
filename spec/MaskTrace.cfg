SPECIFICATION Spec
INVARIANTS MaskExact MaskedVoid NotInBand OthersKept
