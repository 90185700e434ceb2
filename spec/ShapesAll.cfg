SPECIFICATION Spec
CONSTANT G = 4
INVARIANTS WindingIsInside RectangleAgrees OrientationFree OutlineIsZero
