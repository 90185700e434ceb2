SPECIFICATION Spec
CONSTANTS
    Objs = {1, 2}
    Seeds = {1, 2}
    MaxHist = 3
    KeepOnSeed = FALSE
INVARIANTS SeedFixesStream OutputFixed
PROPERTIES Isolated
