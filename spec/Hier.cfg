SPECIFICATION Spec
INVARIANTS Occurrences Absolute Widths Emitted
PROPERTY Quiet
CHECK_DEADLOCK FALSE
