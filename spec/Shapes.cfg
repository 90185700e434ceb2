SPECIFICATION Spec
CONSTANT G = 3
INVARIANTS WindingIsInside RectangleAgrees OrientationFree OutlineIsZero
