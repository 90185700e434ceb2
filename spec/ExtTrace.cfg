SPECIFICATION Spec
INVARIANTS LevelSetUntouched BorderVelocity UpwindAverage Hull Linear UniformExtends
CONSTANTS
    One = 1000000
