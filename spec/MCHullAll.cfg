SPECIFICATION Spec
CONSTANTS MaxSeen = 4
 Octants = TRUE
INVARIANTS Holds Refused Criterion Arc2
CHECK_DEADLOCK FALSE
