SPECIFICATION Spec
INVARIANTS ScaleReturned StepDivided StepUntouchedWhenSmall NoiseFromDraws NoNoiseWhenCold ExtensionOfNoisy NothingElse
