SPECIFICATION Spec
CONSTANTS Slots = {1, 2, 3}
V = 4
INVARIANTS TypeOK Twins
PROPERTY Apart
CHECK_DEADLOCK FALSE
