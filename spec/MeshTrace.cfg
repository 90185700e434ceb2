SPECIFICATION Spec
INVARIANTS SizesRight LookupRight NodeInMesh LookupSelf NeighboursRight NeighboursSymmetric DomainFlag Unmasked ReverseRight ElementInMesh CornersRight EachOnce
CHECK_DEADLOCK TRUE
