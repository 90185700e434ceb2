SPECIFICATION Spec
CONSTANT Nodes = {1, 2, 3, 4}
INVARIANTS MaskedVoid
PROPERTIES MaskGrows
