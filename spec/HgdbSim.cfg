SPECIFICATION Spec
INVARIANT Inv
PROPERTY StepInv
CHECK_DEADLOCK FALSE
