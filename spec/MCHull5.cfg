SPECIFICATION Spec
CONSTANTS MaxSeen = 5
 Octants = FALSE
INVARIANTS Holds Refused Criterion Arc2
CHECK_DEADLOCK FALSE
