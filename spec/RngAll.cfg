SPECIFICATION Spec
CONSTANTS
    Objs = {1, 2}
    Seeds = {1, 2}
    MaxHist = 4
    KeepOnSeed = FALSE
INVARIANTS SeedFixesStream OutputFixed
PROPERTIES Isolated
