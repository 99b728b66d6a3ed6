SPECIFICATION Spec
INVARIANT SameAnswers
CHECK_DEADLOCK FALSE
