SPECIFICATION Spec
CONSTANT K = 4
INVARIANTS Extreme ChordOrder
CHECK_DEADLOCK FALSE
