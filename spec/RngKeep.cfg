SPECIFICATION Spec
CONSTANTS
    Objs = {1, 2}
    Seeds = {1, 2}
    MaxHist = 3
    KeepOnSeed = TRUE
INVARIANTS SeedFixesStream OutputFixed
PROPERTIES Isolated
