SPECIFICATION Spec
INVARIANTS Finite SidesKept FurtherThanSomeNeighbour
