SPECIFICATION Spec
CONSTANTS
    Ks = {0, 1, 2, 3, 5, 8, 13, 16, 17, 20, 21, 22, 24, 28, 29, 31, 32}
    Ds = {1, 2, 3, 4}
    Cs = {1, 2}
INVARIANTS WithinHalfLimit ExactlyHalfWhenScaled NeverLonger NoTimeLost IdleWhenSmall
