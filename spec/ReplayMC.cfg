SPECIFICATION Spec
INVARIANTS Complete Sound Recorded
PROPERTIES Forward Lands Bounded
CHECK_DEADLOCK FALSE
