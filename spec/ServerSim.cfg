SPECIFICATION SimSpec
CHECK_DEADLOCK FALSE
