SPECIFICATION Spec
CONSTANTS
    One = 60
    W = 3
    H = 2
    Patterns = {1}
INVARIANTS SidesKept TrialIsTheRim AllAccepted FurtherThanSomeNeighbour BorderInsideCell
PROPERTIES AcceptedStaysPut
