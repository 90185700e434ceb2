SPECIFICATION Spec
INVARIANTS UpwindGradient DiagonalAtCorners ZeroOutsideBand OnlyGradients Symmetric CornersGentle PlanesExact
