SPECIFICATION Spec
VIEW View
INVARIANT Inv
PROPERTY StepInv
CHECK_DEADLOCK FALSE
